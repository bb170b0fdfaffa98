From 86a4dc48fc2af92bafffa0fb5481209a37fbed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:04 +0000
Subject: [PATCH 01/66] fix: saving again must not inject text, images and
 fonts twice

build() changed the objects of the opened document in place and appended
to font buffers of the previous build.
---
 pdf_data.go      | 8 ++++++++
 pdf_font_data.go | 7 +++++++
 pdft.go          | 2 +-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pdf_data.go b/pdf_data.go
index e0339ca..6ff5326 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -30,6 +30,14 @@ func (p *PDFData) Len() int {
 	return len(p.objIDs)
 }
 
+// clone copy object table, so that changing objects of the copy does not change p
+func (p *PDFData) clone() PDFData {
+	newpdf := *p
+	newpdf.objIDs = append([]int(nil), p.objIDs...)
+	newpdf.objs = append([]PDFObjData(nil), p.objs...)
+	return newpdf
+}
+
 func (p *PDFData) put(pdfobj PDFObjData) {
 	p.objIDs = append(p.objIDs, pdfobj.objID)
 	p.objs = append(p.objs, pdfobj)
diff --git a/pdf_font_data.go b/pdf_font_data.go
index ce7d668..cf70a72 100644
--- a/pdf_font_data.go
+++ b/pdf_font_data.go
@@ -88,6 +88,13 @@ func (p *PDFFontData) build() (int, error) {
 	//dictionary
 	p.dictionary.SetPtrToSubsetFontObj(&p.font)
 
+	//clear result of previous build
+	p.font.GetObjBuff().Reset()
+	p.cid.GetObjBuff().Reset()
+	p.unicodeMap.GetObjBuff().Reset()
+	p.fontDesc.GetObjBuff().Reset()
+	p.dictionary.GetObjBuff().Reset()
+
 	var err error
 	err = p.font.Build(p.fontID)
 	if err != nil {
diff --git a/pdft.go b/pdft.go
index ebbb481..600d01f 100644
--- a/pdft.go
+++ b/pdft.go
@@ -607,7 +607,7 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		}
 	}
 
-	newpdf := i.pdf //copy
+	newpdf := i.pdf.clone() //copy
 
 	err = newpdf.injectFontsToPDF(i.fontDatas)
 	if err != nil {
-- 
2.43.0


From a17601ce34919b1ffe63af31e95f23669583be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:27 +0000
Subject: [PATCH 02/66] fix: opening again must not keep objects and insertions
 of the previous open

---
 pdft.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdft.go b/pdft.go
index 600d01f..1245e7a 100644
--- a/pdft.go
+++ b/pdft.go
@@ -100,14 +100,19 @@ func (i *PDFt) Open(filepath string) error {
 // OpenFrom open pdf from io.Reader
 func (i *PDFt) OpenFrom(r io.Reader) error {
 	//init
+	i.pdf = PDFData{}
 	i.fontDatas = make(map[string]*PDFFontData)
-	i.curr.lineWidth = 1.0
+	i.curr = current{lineWidth: 1.0}
+	i.pdfImgs = nil
 	i.pdfImgsMd5Map = make(map[string]*PDFImageData)
+	i.contenters = nil
 	//open
-	err := PDFParse(r, &i.pdf)
+	var pdf PDFData
+	err := PDFParse(r, &pdf)
 	if err != nil {
 		return err
 	}
+	i.pdf = pdf
 
 	i.ShowCellBorder(false)
 
-- 
2.43.0


From 955c9f297fc307ce3866bb6f2bfb05d46b3e9433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:17 +0000
Subject: [PATCH 03/66] fix: page operations must check page range,
 RemoveOtherPages must keep the given page

RemoveOtherPages kept the page after the desired one (and panicked for the
last page). Zero and negative page numbers and bad positions panicked.
---
 pdft.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pdft.go b/pdft.go
index 1245e7a..ae1196e 100644
--- a/pdft.go
+++ b/pdft.go
@@ -126,7 +126,13 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
+		return ErrNoDesiredPageToCopy
+	}
+	if position < 0 {
+		position = len(pageObjIds) + position // like python
+	}
+	if position < 0 || position >= len(pageObjIds) {
 		return ErrNoDesiredPageToCopy
 	}
 
@@ -150,9 +156,6 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 
 	pageID := i.pdf.putNewObject(pageObj)
 
-	if position < 0 {
-		position = len(pageObjIds) + position // like python
-	}
 	pageObjIds = append(pageObjIds, 0)
 	copy(pageObjIds[position+1:], pageObjIds[position:])
 	pageObjIds[position+1] = pageID
@@ -166,7 +169,7 @@ func (i *PDFt) RemovePage(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToRemove
 	}
 	copy(pageObjIds[targetPageNumber-1:], pageObjIds[targetPageNumber:])
@@ -181,11 +184,11 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToKeep
 	}
 
-	return i.setPages([]int{pageObjIds[targetPageNumber]})
+	return i.setPages([]int{pageObjIds[targetPageNumber-1]})
 }
 
 func (i *PDFt) setPages(pageObjIds []int) error {
-- 
2.43.0


From 8e1798909748af6eed9e6498a3309e3e85e6c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:54 +0000
Subject: [PATCH 04/66] fix: page height must follow page operations and
 inherited /MediaBox

Heights were stored per page index at open, so after removing or duplicating
a page text and images of the pages behind were placed by the height of
another page. A page that inherits /MediaBox from /Parent made Open panic.
---
 pdf_data.go  | 32 +++++++++++++++++++++++++++++++-
 pdf_parse.go |  6 ++++--
 pdft.go      |  4 ++--
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 6ff5326..9204f33 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -17,7 +17,7 @@ type PDFData struct {
 	objIDs    []int
 	objs      []PDFObjData
 	pagesObj  *PDFObjData
-	pageSizes map[int][]float64 //key is page objID
+	pageSizes map[int][]float64 //key is page index
 }
 
 // TrailerData trailer
@@ -157,6 +157,36 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 	return results, nil
 }
 
+// getInheritedProp get property of page from the page itself or, if the page has not it, from the nearest /Parent.
+// The result is objID of the object that has the property and the property (nil if not found).
+func (p *PDFData) getInheritedProp(pageObjID int, key string) (int, *PDFObjPropertyData, error) {
+	visited := make(map[int]bool)
+	objID := pageObjID
+	for !visited[objID] {
+		visited[objID] = true
+		obj := p.getObjByID(objID)
+		if obj == nil {
+			break
+		}
+		props, err := obj.readProperties()
+		if err != nil {
+			return 0, nil, err
+		}
+		if prop := props.getPropByKey(key); prop != nil {
+			return objID, prop, nil
+		}
+		parent := props.getPropByKey("Parent")
+		if parent == nil {
+			break
+		}
+		objID, _, err = parent.asDictionary()
+		if err != nil {
+			return 0, nil, err
+		}
+	}
+	return 0, nil, nil
+}
+
 func (p *PDFData) maxID() int {
 	max := 0
 	for _, id := range p.objIDs {
diff --git a/pdf_parse.go b/pdf_parse.go
index d5d314a..c55d31e 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -53,11 +53,13 @@ func parsePageSize(pdf *PDFData) error {
 	}
 
 	for n, pageID := range pageIDs {
-		data := pdf.getObjByID(pageID).data
-		propContentsObj, err := readProperty(&data, "MediaBox")
+		_, propContentsObj, err := pdf.getInheritedProp(pageID, "MediaBox")
 		if err != nil {
 			return err
 		}
+		if propContentsObj == nil {
+			continue
+		}
 		valType := propContentsObj.valType()
 		if valType != array {
 			fmt.Printf("MediaBox type is not array, but %s", valType)
diff --git a/pdft.go b/pdft.go
index ae1196e..bb5df12 100644
--- a/pdft.go
+++ b/pdft.go
@@ -209,7 +209,7 @@ func (i *PDFt) setPages(pageObjIds []int) error {
 	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
 	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
 	pagesObj.setProperties(props)
-	return nil
+	return parsePageSize(&i.pdf) //page order is changed
 }
 
 // GetNumberOfPage get number of page
@@ -346,7 +346,7 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 
 func (i *PDFt) pageHeight(pageNum int) float64 {
 	pageIndex := pageNum - 1
-	if val, ok := i.pdf.pageSizes[pageIndex]; ok {
+	if val, ok := i.pdf.pageSizes[pageIndex]; ok && len(val) >= 4 {
 		return val[3]
 	}
 	return 841.89 //A4
-- 
2.43.0


From d13983146b4d0ffbe910fb2b058a4ddbfa59b35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:15 +0000
Subject: [PATCH 05/66] fix: pages moved out of a nested page tree must point
 to their new /Parent

Page operations put all pages directly under the root /Pages, but the pages
still had the old /Parent.
---
 pdf_data.go | 35 +++++++++++++++++++++++++++++++++++
 pdft.go     |  6 ++++++
 2 files changed, 41 insertions(+)

diff --git a/pdf_data.go b/pdf_data.go
index 9204f33..f90b7b1 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -187,6 +187,41 @@ func (p *PDFData) getInheritedProp(pageObjID int, key string) (int, *PDFObjPrope
 	return 0, nil, nil
 }
 
+// inheritableKeys properties that a page inherits from /Parent
+var inheritableKeys = []string{"Resources", "MediaBox", "CropBox", "Rotate"}
+
+// movePageTo change /Parent of page, the page keeps properties that it inherits from the old /Parent
+func (p *PDFData) movePageTo(pageObjID int, pagesObjID int) error {
+	pageObj := p.getObjByID(pageObjID)
+	props, err := pageObj.readProperties()
+	if err != nil {
+		return err
+	}
+	parent := props.getPropByKey("Parent")
+	if parent == nil {
+		return nil
+	}
+	parentID, _, err := parent.asDictionary()
+	if err != nil {
+		return err
+	}
+	if parentID == pagesObjID {
+		return nil
+	}
+	parent.setAsDictionary(pagesObjID, 0)
+	for _, key := range inheritableKeys {
+		ownerID, prop, err := p.getInheritedProp(pageObjID, key)
+		if err != nil {
+			return err
+		}
+		if prop != nil && ownerID != pageObjID && ownerID != pagesObjID {
+			props.append(*prop)
+		}
+	}
+	pageObj.setProperties(props)
+	return nil
+}
+
 func (p *PDFData) maxID() int {
 	max := 0
 	for _, id := range p.objIDs {
diff --git a/pdft.go b/pdft.go
index bb5df12..27e7862 100644
--- a/pdft.go
+++ b/pdft.go
@@ -205,6 +205,12 @@ func (i *PDFt) setPages(pageObjIds []int) error {
 	if err != nil {
 		return err
 	}
+	for _, pageObjID := range pageObjIds {
+		err = i.pdf.movePageTo(pageObjID, rootPagesID)
+		if err != nil {
+			return err
+		}
+	}
 	nPage := len(pageObjIds)
 	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
 	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
-- 
2.43.0


From af5b97affee688ab4e63eb0529c1a705b96ee14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:47 +0000
Subject: [PATCH 06/66] fix: Insert that fails must not leave broken text in
 the document

Text with a character that the font cannot encode was queued before the error
was returned, and Save then wrote an unfinished string into the page.
MeasureTextWidth without font panicked.
---
 minigopdf/cache_content_text.go |  5 ++++-
 pdft.go                         | 14 ++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 0da146c..2660c79 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -388,7 +388,10 @@ func (c *CacheContent) WriteTextToContent(text string) {
 
 // ToStream create stream of content
 func (c *CacheContent) ToStream(protection *PDFProtection) (*bytes.Buffer, error) {
-	c.cacheContentText.createContent()
+	_, _, err := c.cacheContentText.createContent()
+	if err != nil {
+		return nil, err
+	}
 	return c.cacheContentText.toStream(protection)
 }
 
diff --git a/pdft.go b/pdft.go
index 27e7862..41304de 100644
--- a/pdft.go
+++ b/pdft.go
@@ -328,13 +328,16 @@ func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64,
 		return ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
+	err := ct.pdfFontData.addChars(text)
+	if err != nil {
+		return err
+	}
 	i.contenters = append(i.contenters, &ct)
-	return i.fontDatas[ct.fontName].addChars(text)
+	return nil
 }
 
 // MeasureTextWidth measure text width
 func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
-	i.fontDatas[i.curr.fontName].addChars(text)
 	var ct ContentText
 	ct.text = text
 	ct.fontName = i.curr.fontName
@@ -346,8 +349,11 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 		return 0, ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
-	width, err := ct.measureTextWidth()
-	return width, err
+	err := ct.pdfFontData.addChars(text)
+	if err != nil {
+		return 0, err
+	}
+	return ct.measureTextWidth()
 }
 
 func (i *PDFt) pageHeight(pageNum int) float64 {
-- 
2.43.0


From e0c4ff1cff5c766bbdf7376cd7674797bc700184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:01 +0000
Subject: [PATCH 07/66] fix: fonts and images must be added to the resources of
 every page without touching existing names

Images were added to the resources of one page only, chosen by map order. New
image names could collide with existing ones, existing font and image names
were rewritten (/F01 to /F1, /TT2_0 to /TT20) or made Save fail (/Helv), and
pages without /Font or with inherited /Resources did not get the new fonts.
---
 crawl_result_font.go     |  88 ---------
 crawl_result_x_object.go |  61 ------
 pdf_data.go              | 406 ++++++++++++---------------------------
 pdft.go                  |  22 ++-
 4 files changed, 145 insertions(+), 432 deletions(-)
 delete mode 100644 crawl_result_font.go
 delete mode 100644 crawl_result_x_object.go

diff --git a/crawl_result_font.go b/crawl_result_font.go
deleted file mode 100644
index 23ece59..0000000
--- a/crawl_result_font.go
+++ /dev/null
@@ -1,88 +0,0 @@
-package pdft
-
-import (
-	"bytes"
-	"fmt"
-	"strconv"
-	"strings"
-	"unicode"
-)
-
-type crawlResultFonts []crawlResultFont
-
-var ErrNoFontIndex = fmt.Errorf("no font index")
-
-// Split a font string like '/F1' or '/TT2' into the prefix and index
-func splitFont(s string) (string, int, error) {
-	prefix := ""
-	for i, r := range s {
-		if unicode.IsDigit(r) {
-			s := strings.ReplaceAll(s, "_", "")
-			val, err := strconv.Atoi(s[i:])
-			if err != nil {
-				return "", 0, err
-			}
-			return prefix, val, nil
-		}
-		prefix += string(r)
-	}
-	return "", 0, ErrNoFontIndex
-}
-
-func (c *crawlResultFonts) parse(propVal *[]byte) error {
-	var props PDFObjPropertiesData
-	err := readProperties(propVal, &props)
-	if err != nil {
-		return err
-	}
-
-	for _, prop := range props {
-		var crFont crawlResultFont
-
-		prefix, fontIndex, err := splitFont(strings.TrimSpace(prop.key))
-		if err != nil {
-			return err
-		}
-		objID, _, err := prop.asDictionary()
-		if err != nil {
-			return err
-		}
-		crFont.prefix = prefix
-		crFont.fontIndex = fontIndex
-		crFont.fontObjID = objID
-		*c = append(*c, crFont)
-	}
-	return nil
-}
-
-func (c *crawlResultFonts) String() string {
-	var buff bytes.Buffer
-	for _, f := range *c {
-		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R\n", f.prefix, f.fontIndex, f.fontObjID))
-	}
-	return buff.String()
-}
-
-func (c *crawlResultFonts) append(fontIndex int, fontObjID int) {
-	var crFont crawlResultFont
-	crFont.fontIndex = fontIndex
-	crFont.fontObjID = fontObjID
-	crFont.prefix = "F"
-	*c = append(*c, crFont)
-}
-
-func (c *crawlResultFonts) maxFontIndex() int {
-	max := 0
-	for _, f := range *c {
-		if f.fontIndex > max {
-			max = f.fontIndex
-		}
-	}
-	return max
-}
-
-type crawlResultFont struct {
-	fontIndex int
-	fontObjID int
-	prefix    string
-}
diff --git a/crawl_result_x_object.go b/crawl_result_x_object.go
deleted file mode 100644
index ca895a0..0000000
--- a/crawl_result_x_object.go
+++ /dev/null
@@ -1,61 +0,0 @@
-package pdft
-
-import (
-	"bytes"
-	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
-)
-
-type crawlResultXObjects []crawlResultXObject
-
-var regSplit = regexp.MustCompile("([a-z A-Z]*)([0-9]*)")
-
-func (c *crawlResultXObjects) parse(propVal *[]byte) error {
-	var props PDFObjPropertiesData
-	err := readProperties(propVal, &props)
-	if err != nil {
-		return err
-	}
-
-	for _, prop := range props {
-		//fmt.Printf("\t %#v\n", prop)
-		tokens := regSplit.FindStringSubmatch(prop.key)
-		if len(tokens) < 3 {
-			continue
-		}
-
-		var xObj crawlResultXObject
-		xObj.xObjChar = tokens[1]
-		xObjIndex, err := strconv.Atoi(strings.TrimSpace(tokens[2]))
-		if err != nil {
-			return err
-		}
-		xObj.xObjIndex = xObjIndex
-
-		xObjObjID, _, err := readObjIDFromDictionary(prop.rawVal)
-		if err != nil {
-			return err
-		}
-
-		xObj.xObjObjID = xObjObjID
-		*c = append(*c, xObj)
-	}
-
-	return nil
-}
-
-func (c *crawlResultXObjects) String() string {
-	var buff bytes.Buffer
-	for _, xObj := range *c {
-		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R", xObj.xObjChar, xObj.xObjIndex, xObj.xObjObjID))
-	}
-	return buff.String()
-}
-
-type crawlResultXObject struct {
-	xObjChar  string
-	xObjIndex int
-	xObjObjID int
-}
diff --git a/pdf_data.go b/pdf_data.go
index f90b7b1..ec9188c 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -84,34 +84,6 @@ func (p *PDFData) getObjByID(objID int) *PDFObjData {
 	return nil
 }
 
-// getPageCrawl use crawl, supporting for page nesting
-func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
-	var cw crawl
-	pagePath := append([]string{"Pages"}, path...)
-	cw.set(p, objID, pagePath...)
-	cw.run()
-	checkedQueue := []int{}
-	for k := range cw.results {
-		checkedQueue = append(checkedQueue, k)
-	}
-	for len(checkedQueue) > 0 {
-		key := checkedQueue[0]
-		if s := cw.results[key].String(); strings.Contains(s, "/Pages") && strings.Contains(s, "/Parent") {
-			var subCw crawl
-			subCw.set(p, key, path...)
-			subCw.run()
-			for k, v := range subCw.results {
-				cw.results[k] = v
-				if _, ok := cw.results[k]; !ok {
-					checkedQueue = append(checkedQueue, k)
-				}
-			}
-		}
-		checkedQueue = checkedQueue[1:]
-	}
-	return &cw, nil
-}
-
 // getPageObjIDs get page obj IDs
 func (p *PDFData) getPageObjIDs() ([]int, error) {
 	results := []int{}
@@ -233,247 +205,166 @@ func (p *PDFData) maxID() int {
 }
 
 func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
-	var err error
-	isEmbedResources := false
-	rootOfXObjectID := -1
-	resourcesContent := ""
-	cwRes, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources")
-	//if err != nil {
-	//	return err
-	//}
-	foundRes := false
-	for resID, r := range cwRes.results {
-		resources, err := r.valOf("Resources")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return err
-		} else {
-			foundRes = true
-			resourcesID, _, err := readObjIDFromDictionary(resources)
-			if err == ErrorObjectIDNotFound {
-				rootOfXObjectID = resID
-				resourcesContent = resources
-				isEmbedResources = true
-			} else if err != nil {
-				return err
-			} else {
-				rootOfXObjectID = resourcesID
-				data := p.getObjByID(resourcesID)
-				if data != nil {
-					resourcesContent = string(data.data)
-				}
-				isEmbedResources = false
-			}
-			break
-		}
+	used, err := p.pageResourceNames("XObject")
+	if err != nil {
+		return err
 	}
-
-	if !foundRes {
-		return errors.New("not found /Resources in /Type/Pages")
+	var entries bytes.Buffer
+	xObjIndex := 0
+	for _, pdfImg := range pdfImgs {
+		xObjIndex++
+		for used[fmt.Sprintf("I%d", xObjIndex)] {
+			xObjIndex++
+		}
+		pdfImg.xObjChar = "I"
+		pdfImg.xObjIndex = xObjIndex
+		entries.WriteString(fmt.Sprintf("/I%d %d 0 R\n", xObjIndex, pdfImg.objID))
 	}
+	return p.addPageResources("XObject", entries.String())
+}
 
-	var cw crawl
-	//cw.set(p, p.trailer.rootObjID, "Pages", "Kids", "Resources", "XObject")
-	cw.set(p, rootOfXObjectID, "XObject")
-	err = cw.run()
+func (p *PDFData) injectFontsToPDF(fontDatas []*PDFFontData) error {
+	used, err := p.pageResourceNames("Font")
 	if err != nil {
 		return err
 	}
-
-	found := false
-	xObjectVals := make(map[int]string)
-	for objID, r := range cw.results {
-		xobject, err := r.valOf("XObject")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return err
-		} else {
-			xObjectVals[objID] = xobject
-			found = true
+	var entries bytes.Buffer
+	fontIndex := 0
+	for _, fontData := range fontDatas {
+		fontIndex++
+		for used[fmt.Sprintf("F%d", fontIndex)] {
+			fontIndex++
 		}
+		fontData.setFontIndex(fontIndex)
+		entries.WriteString(fmt.Sprintf("/F%d %d 0 R\n", fontIndex, fontData.fontID))
 	}
+	return p.addPageResources("Font", entries.String())
+}
 
-	if !found { //ถ้ายังไม่เจออีก
-		cw2, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "XObject")
-		cw = *cw2
+// pageResourceNames names that pages already use in category (Font, XObject) of /Resources
+func (p *PDFData) pageResourceNames(category string) (map[string]bool, error) {
+	names := make(map[string]bool)
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return nil, err
+	}
+	for _, pageObjID := range pageObjIDs {
+		_, prop, err := p.getInheritedProp(pageObjID, "Resources")
 		if err != nil {
-			return err
+			return nil, err
 		}
-		for objID, r := range cw.results {
-			xobject, err := r.valOf("XObject")
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			} else if err != nil {
-				return err
-			} else {
-				xObjectVals[objID] = xobject
-				found = true
-			}
+		resources, err := p.dictOfProp(prop)
+		if err != nil {
+			return nil, err
 		}
-	}
-
-	var xobjs crawlResultXObjects
-	var xObjIndex int
-	xObjChar := "I"
-	if found {
-		for _, xObjectVal := range xObjectVals {
-			propVal := []byte(xObjectVal)
-			xobjs.parse(&propVal)
-			if len(xobjs) > 0 {
-				xObjChar = xobjs[len(xobjs)-1].xObjChar
-				if xobjs[len(xobjs)-1].xObjIndex > xObjIndex {
-					xObjIndex = xobjs[len(xobjs)-1].xObjIndex
-				}
-			}
+		items, err := p.dictOfProp(resources.getPropByKey(category))
+		if err != nil {
+			return nil, err
+		}
+		for _, item := range items {
+			names[item.key] = true
 		}
 	}
+	return names, nil
+}
 
-	i := 0
-	max := len(pdfImgs)
-	for i < max {
-		objID := pdfImgs[i].objID
-		pdfImgs[i].xObjChar = xObjChar
-		pdfImgs[i].xObjIndex = xObjIndex + i + 1
-
-		var xobj crawlResultXObject
-		xobj.xObjChar = xObjChar
-		xobj.xObjIndex = xObjIndex + i + 1
-		xobj.xObjObjID = objID
-		xobjs = append(xobjs, xobj)
-		i++
+// dictOfProp read dictionary that is value of prop, the value can be an indirect object
+func (p *PDFData) dictOfProp(prop *PDFObjPropertyData) (PDFObjPropertiesData, error) {
+	var props PDFObjPropertiesData
+	if prop == nil {
+		return props, nil
 	}
-
-	objMustReplaces := make(map[int]string)
-	if found {
-		for objID, r := range cw.results {
-			var oldXObjectStr string
-			oldXObjectStr, err = r.valOf("XObject")
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			} else if err != nil {
-				return err
-			}
-			var newXObjs crawlResultXObjects
-			bOldXObjectStr := []byte(oldXObjectStr)
-			newXObjs.parse(&bOldXObjectStr)
-			for _, xobj := range xobjs { // pick new item from xobjs into newXObjs
-				isExisted := false
-				for _, existedXObj := range newXObjs {
-					if existedXObj.xObjChar == xobj.xObjChar && existedXObj.xObjIndex == xobj.xObjIndex { // Avoid conflict of same xObjIndex when editing emerged pdf
-						isExisted = true
-						break
-					}
-				}
-				if !isExisted {
-					newXObjs = append(newXObjs, xobj)
-				}
-			}
-			r.setValOf("XObject", fmt.Sprintf("<<%s>>\n", newXObjs.String()))
-			objMustReplaces[objID] = r.String()
+	raw := []byte(prop.rawVal)
+	if prop.valType() != object {
+		objID, _, err := prop.asDictionary()
+		if err != nil {
+			return nil, err
 		}
-	} else {
-		if isEmbedResources {
-			var cw01 crawl
-			cw01.set(p, p.trailer.rootObjID, "Pages", "Kids", "Resources")
-			err = cw01.run()
-			if err != nil {
-				return err
-			}
-			for objID, r := range cw01.results {
-				res, err := r.valOf("Resources")
-				if err == ErrCrawlResultValOfNotFound {
-					continue
-				} else if err != nil {
-					return err
-				} else {
-					res = strings.TrimSpace(res)
-					res = fmt.Sprintf("%s /XObject <<%s>>", res[2:len(res)-2], xobjs.String())
-					r.setValOf("Resources", fmt.Sprintf("<<%s>>\n", res))
-					objMustReplaces[objID] = r.String()
-				}
-			}
-		} else {
-			for objID, r := range cw.results {
-				res := strings.TrimSpace(resourcesContent)
-				res = fmt.Sprintf("<<%s>>\n", xobjs.String())
-				r.add("XObject", res)
-				objMustReplaces[objID] = r.String()
-				//fmt.Printf("%s\n", r.String())
-			}
+		obj := p.getObjByID(objID)
+		if obj == nil {
+			return nil, ErrorObjectIDNotFound
 		}
+		raw = obj.data
 	}
+	err := readProperties(&raw, &props)
+	return props, err
+}
 
-	for objID := range objMustReplaces {
-		p.getObjByID(objID).data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
+// addPageResources add entries to category (Font, XObject) of /Resources of all pages
+func (p *PDFData) addPageResources(category string, entries string) error {
+	if entries == "" {
+		return nil
+	}
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return err
+	}
+	done := make(map[string]bool)
+	for _, pageObjID := range pageObjIDs {
+		ownerID, prop, err := p.getInheritedProp(pageObjID, "Resources")
+		if err != nil {
+			return err
+		}
+		if prop == nil {
+			ownerID = pageObjID
+		}
+		err = p.addEntriesToObj(ownerID, []string{"Resources", category}, entries, done)
+		if err != nil {
+			return err
+		}
 	}
-
 	return nil
 }
 
-func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
-	var err error
-	cw, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "Font")
+// addEntriesToObj add entries to the dictionary at path of object, only once for dictionary that is shared
+func (p *PDFData) addEntriesToObj(objID int, path []string, entries string, done map[string]bool) error {
+	key := fmt.Sprintf("%d/%s", objID, strings.Join(path, "/"))
+	if done[key] {
+		return nil
+	}
+	done[key] = true
+	obj := p.getObjByID(objID)
+	if obj == nil {
+		return ErrorObjectIDNotFound
+	}
+	data, err := p.addEntriesToDict(obj.data, path, entries, done)
 	if err != nil {
 		return err
 	}
+	obj.data = data
+	return nil
+}
 
-	maxFontIndex, err := findMaxFontIndex(cw, p)
+func (p *PDFData) addEntriesToDict(raw []byte, path []string, entries string, done map[string]bool) ([]byte, error) {
+	var dict PDFObjData
+	var props PDFObjPropertiesData
+	err := readProperties(&raw, &props)
 	if err != nil {
-		return err
+		return nil, err
 	}
-
-	var newCrFonts crawlResultFonts //font ใหม่ที่จะยัดเข้าไป
-	for _, pdffontdata := range fontDatas {
-		maxFontIndex++
-		newCrFonts.append(maxFontIndex, pdffontdata.fontID)
-		pdffontdata.setFontIndex(maxFontIndex)
+	if len(path) == 0 {
+		dict.setProperties(&props)
+		return append(bytes.TrimSuffix(dict.data, []byte(">>\n")), "\n"+entries+">>\n"...), nil
 	}
-
-	objMustReplaces := make(map[int]string)
-	//หา obj ที่ต้องยัด font ใหม่ลงไป
-	for objID, r := range cw.results { //วน แต่ละ ojb
-		fontPropVal, err := r.valOf("Font")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return err
-		}
-
-		fontPropValType := propertyType(fontPropVal)
-		if fontPropValType == object {
-			var crFonts crawlResultFonts
-			tmp := []byte(fontPropVal)
-			err = crFonts.parse(&tmp)
-			if err != nil {
-				return err
-			}
-			crFonts = append(crFonts, newCrFonts...)
-			r.setValOf("Font", "<<\n"+crFonts.String()+">>\n")
-			objMustReplaces[objID] = r.String()
-		} else if fontPropValType == dictionary {
-			var fontObjID int
-			fontObjID, _, err = readObjIDFromDictionary(fontPropVal)
-			if err != nil {
-				return err
-			}
-			var crFonts crawlResultFonts
-			fontObj := p.getObjByID(fontObjID)
-			err = crFonts.parse(&fontObj.data)
-			if err != nil {
-				return err
-			}
-			crFonts = append(crFonts, newCrFonts...)
-			objMustReplaces[fontObjID] = crFonts.String()
+	prop := props.getPropByKey(path[0])
+	if prop == nil {
+		props.append(PDFObjPropertyData{key: path[0], rawVal: "<<>>"})
+		prop = props.getPropByKey(path[0])
+	}
+	if prop.valType() != object {
+		objID, _, err := prop.asDictionary()
+		if err != nil {
+			return nil, err
 		}
+		return raw, p.addEntriesToObj(objID, path[1:], entries, done)
 	}
-
-	for objID := range objMustReplaces {
-		p.getObjByID(objID).data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
+	val, err := p.addEntriesToDict([]byte(prop.rawVal), path[1:], entries, done)
+	if err != nil {
+		return nil, err
 	}
-
-	return nil
+	prop.setRaw(string(val))
+	dict.setProperties(&props)
+	return dict.data, nil
 }
 
 func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
@@ -642,51 +533,6 @@ func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
 	return &out, nil
 }
 
-func findMaxFontIndex(cw *crawl, p *PDFData) (int, error) {
-	//find max font index
-	max := 0
-	for _, item := range cw.results {
-		fontPropVal, err := item.valOf("Font")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return 0, err
-		}
-
-		var crFonts crawlResultFonts
-		fontPropValType := propertyType(fontPropVal)
-		if fontPropValType == object {
-			tmp := []byte(fontPropVal)
-			err = crFonts.parse(&tmp)
-			if err != nil {
-				return 0, err
-			}
-			//fmt.Printf("%#v\n", crFonts)
-		} else if fontPropValType == dictionary {
-			var fontObjID int
-			fontObjID, _, err = readObjIDFromDictionary(fontPropVal)
-			if err != nil {
-				return 0, err
-			}
-			fontObj := p.getObjByID(fontObjID)
-			err = crFonts.parse(&fontObj.data)
-			if err != nil {
-				return 0, err
-			}
-			//fmt.Printf("%#v\n", crFonts)
-		} else {
-			return 0, errors.New("not support /Font type array yet")
-		}
-
-		maxFontIndex := crFonts.maxFontIndex()
-		if maxFontIndex > max {
-			max = maxFontIndex
-		}
-	}
-
-	return max, nil
-}
-
 func objIDFromStartObjLine(line string) (int, error) {
 	tokens := strings.Fields(line)
 	if len(tokens) < 3 {
diff --git a/pdft.go b/pdft.go
index 41304de..e1f6220 100644
--- a/pdft.go
+++ b/pdft.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -614,11 +615,26 @@ func (i *PDFt) SaveTo(w io.Writer) error {
 	return nil
 }
 
+// sortedFontDatas fonts in order of font name
+func (i *PDFt) sortedFontDatas() []*PDFFontData {
+	var names []string
+	for name := range i.fontDatas {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	var fontDatas []*PDFFontData
+	for _, name := range names {
+		fontDatas = append(fontDatas, i.fontDatas[name])
+	}
+	return fontDatas
+}
+
 func (i *PDFt) build() (*PDFData, int, error) {
 
 	var err error
 	nextID := i.pdf.maxID()
-	for _, fontData := range i.fontDatas {
+	fontDatas := i.sortedFontDatas()
+	for _, fontData := range fontDatas {
 		nextID++
 		fontData.setStartID(nextID)
 		nextID, err = fontData.build()
@@ -629,13 +645,13 @@ func (i *PDFt) build() (*PDFData, int, error) {
 
 	newpdf := i.pdf.clone() //copy
 
-	err = newpdf.injectFontsToPDF(i.fontDatas)
+	err = newpdf.injectFontsToPDF(fontDatas)
 	if err != nil {
 		return nil, 0, err
 	}
 
 	//ยัด subsetfont obj กลับไป
-	for _, fontData := range i.fontDatas {
+	for _, fontData := range fontDatas {
 
 		var fontobj, cidObj, unicodeMapObj, fontDescObj, dictionaryObj PDFObjData
 
-- 
2.43.0


From ec0f32337a96e4e852270935862818d1bce4cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:48 +0000
Subject: [PATCH 08/66] fix: content of page must be kept when text is appended
 to its stream

Leading white space of the stream was removed without changing the length, so
bytes after the stream were taken as content (or Save panicked), a stream with
/Filter [/FlateDecode] was not decompressed, and for an array of streams the
text was put into the first stream, under the content of the others.
Pages without insertions are not decoded any more.
---
 pdf_data.go | 55 +++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index ec9188c..34ea432 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -393,6 +393,10 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 	objMustReplaces := make(map[int]string)
 	for pageIndex, pageObjID := range pageObjIDs {
 
+		if _, ok := pageBuffs[pageIndex+1]; !ok {
+			continue
+		}
+
 		var cw2Content crawl
 		cw2Content.set(p, pageObjID, "Contents")
 		err = cw2Content.run()
@@ -427,20 +431,16 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 				if err != nil || len(contentsObjIDs) <= 0 {
 					return err
 				}
-				contentsObjID = contentsObjIDs[0]
+				contentsObjID = contentsObjIDs[len(contentsObjIDs)-1] //new content is drawn after content of page
 			} else {
 				return errors.New("not support /Contents type not dictionary,array yet")
 			}
 
 			data := &p.getObjByID(contentsObjID).data
-			zip := true
-			propContentsObj, err := readProperty(data, "FlateDecode")
+			zip, err := isZipStream(data)
 			if err != nil {
 				return err
 			}
-			if propContentsObj == nil {
-				zip = false
-			}
 
 			var stm *bytes.Buffer
 			//fmt.Printf("\n-------------------%d-----------------------\n%s\n\n", contentsObjID, string(*data))
@@ -455,11 +455,9 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			}
 			//fmt.Printf("stm=%s\n\n", stm.String())
 
-			if _, ok := pageBuffs[pageIndex+1]; ok {
-				stm.WriteString("\n")
-				pageBuffs[pageIndex+1].WriteTo(stm)
-				objMustReplaces[contentsObjID] = fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", stm.Len(), stm.String())
-			}
+			stm.WriteString("\n")
+			pageBuffs[pageIndex+1].WriteTo(stm)
+			objMustReplaces[contentsObjID] = fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", stm.Len(), stm.String())
 
 		}
 	}
@@ -506,14 +504,47 @@ func streamLength(p *PDFData, data *[]byte) (int, error) {
 
 }
 
+// isZipStream stream is compressed by FlateDecode?
+func isZipStream(data *[]byte) (bool, error) {
+	var props PDFObjPropertiesData
+	err := readProperties(data, &props)
+	if err != nil {
+		return false, err
+	}
+	filter := props.getPropByKey("Filter")
+	if filter == nil {
+		return false, nil
+	}
+	filterName := strings.Trim(filter.rawVal, "[]/ ")
+	if filterName == "" && filter.valType() != array { // /Filter/FlateDecode
+		if props.getPropByKey("FlateDecode") != nil {
+			filterName = "FlateDecode"
+		}
+	}
+	if filterName != "FlateDecode" || props.getPropByKey("DecodeParms") != nil {
+		return false, errors.New("not support /Filter of /Contents that is not /FlateDecode yet")
+	}
+	return true, nil
+}
+
 var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 
 func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
 
 	index := bytes.Index(*b, extractStreamBytes)
+	if index == -1 {
+		return nil, errors.New("stream not found")
+	}
 	offset := len(extractStreamBytes)
 	tmp := (*b)[index+offset:]
-	tmp = bytes.TrimSpace(tmp)
+	if bytes.HasPrefix(tmp, []byte("\r\n")) { //only end of line after keyword is not data of stream
+		tmp = tmp[2:]
+	} else if bytes.HasPrefix(tmp, []byte("\n")) || bytes.HasPrefix(tmp, []byte("\r")) {
+		tmp = tmp[1:]
+	}
+	if length < 0 || length > len(tmp) {
+		return nil, errors.New("bad length of stream")
+	}
 	tmp = tmp[0:length]
 	var buff bytes.Buffer
 	buff.Write(tmp)
-- 
2.43.0


From ec07fa9235ddd49db4ded707a4ac75691af4f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:39 +0000
Subject: [PATCH 09/66] fix: text inserted into pages without /Contents or with
 a shared content stream must not get lost

A page without /Contents dropped its insertions. When pages share a content
stream, insertions of the pages overwrote each other.
---
 pdf_data.go              | 59 ++++++++++++++++++++++++++++++++++++++++
 pdf_obj_property_data.go |  6 ++++
 pdft.go                  |  2 +-
 3 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/pdf_data.go b/pdf_data.go
index 34ea432..fda1a20 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -390,12 +390,26 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 		}
 	}
 	pageObjIDs, _ := p.getPageObjIDs()
+	contentsUses := make(map[int]int)
+	for _, pageObjID := range pageObjIDs {
+		objIDs, err := p.contentsObjIDs(pageObjID)
+		if err != nil {
+			return err
+		}
+		for _, objID := range objIDs {
+			contentsUses[objID]++
+		}
+	}
 	objMustReplaces := make(map[int]string)
 	for pageIndex, pageObjID := range pageObjIDs {
 
 		if _, ok := pageBuffs[pageIndex+1]; !ok {
 			continue
 		}
+		err = p.ownContents(pageObjID, contentsUses)
+		if err != nil {
+			return err
+		}
 
 		var cw2Content crawl
 		cw2Content.set(p, pageObjID, "Contents")
@@ -472,6 +486,51 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 	return nil
 }
 
+// contentsObjIDs get objIDs of content streams of page
+func (p *PDFData) contentsObjIDs(pageObjID int) ([]int, error) {
+	prop, err := readProperty(&p.getObjByID(pageObjID).data, "Contents")
+	if err != nil || prop == nil {
+		return nil, err
+	}
+	objIDs, _, err := prop.asDictionaryArr()
+	return objIDs, err
+}
+
+// ownContents make page have /Contents that can be changed without changing other pages,
+// contentsUses is number of uses of content streams in all pages
+func (p *PDFData) ownContents(pageObjID int, contentsUses map[int]int) error {
+	objIDs, err := p.contentsObjIDs(pageObjID)
+	if err != nil {
+		return err
+	}
+	props, err := p.getObjByID(pageObjID).readProperties()
+	if err != nil {
+		return err
+	}
+	if len(objIDs) == 0 { //empty page
+		var contentsObj PDFObjData
+		contentsObj.data = []byte("<<\n/Length 0\n>>\nstream\n\nendstream")
+		if props.getPropByKey("Contents") == nil {
+			props.append(PDFObjPropertyData{key: "Contents"})
+		}
+		props.getPropByKey("Contents").setAsDictionary(p.putNewObject(contentsObj), 0)
+		p.getObjByID(pageObjID).setProperties(props)
+		return nil
+	}
+	last := len(objIDs) - 1
+	if contentsUses[objIDs[last]] > 1 {
+		objIDs[last] = p.putNewObject(*p.getObjByID(objIDs[last]))
+		prop := props.getPropByKey("Contents")
+		if prop.valType() == array {
+			prop.setAsDictionaryArr(objIDs, nil)
+		} else {
+			prop.setAsDictionary(objIDs[last], 0)
+		}
+		p.getObjByID(pageObjID).setProperties(props)
+	}
+	return nil
+}
+
 func streamLength(p *PDFData, data *[]byte) (int, error) {
 
 	prop, err := readProperty(data, "Length")
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index bbe0127..5ff6a67 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -179,6 +179,9 @@ func readObjIDFromDictionaryArr(str string) ([]int, []int, error) {
 	tokens := strings.Split(str, " ")
 	var objIDs []int
 	var revisions []int
+	if str == "" { //empty array
+		return objIDs, revisions, nil
+	}
 
 	i := 0
 	max := len(tokens)
@@ -187,6 +190,9 @@ func readObjIDFromDictionaryArr(str string) ([]int, []int, error) {
 		if err != nil {
 			return nil, nil, err
 		}
+		if i+1 >= max {
+			return nil, nil, ErrorObjectIDNotFound
+		}
 		revision, err := strconv.Atoi(strings.TrimSpace(tokens[i+1]))
 		if err != nil {
 			return nil, nil, err
diff --git a/pdft.go b/pdft.go
index e1f6220..f0a1944 100644
--- a/pdft.go
+++ b/pdft.go
@@ -707,7 +707,7 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		}
 	}
 
-	return &newpdf, nextID, nil
+	return &newpdf, newpdf.maxID(), nil
 }
 
 func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
-- 
2.43.0


From 838c36330a6e11e71863e3891589963c37ce43de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:49 +0000
Subject: [PATCH 10/66] fix: protected stream must be encrypted over its exact
 bytes

Line ends at both ends of the stream were cut off although they are data that
/Length counts, so the decrypted stream was shorter than /Length.
---
 pdf_data.go     |  3 +++
 pdf_obj_data.go | 20 +++++++++++++++++---
 pdft.go         |  5 ++++-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index fda1a20..c0f13c3 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -556,6 +556,9 @@ func streamLength(p *PDFData, data *[]byte) (int, error) {
 			return 0, err
 		}
 		fontlengthObj := p.getObjByID(objID)
+		if fontlengthObj == nil {
+			return 0, ErrorObjectIDNotFound
+		}
 		return strconv.Atoi(strings.TrimSpace(string(fontlengthObj.data)))
 	} else {
 		return 0, errors.New("/Length or /Length1  wrong type")
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 719a34a..ff69e08 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -64,19 +64,33 @@ func (p *PDFObjData) setProperties(props *PDFObjPropertiesData) {
 	p.data = data.Bytes()
 }
 
-func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
+func (p *PDFObjData) encrypt(pdf *PDFData, protection *gopdf.PDFProtection) error {
 
 	stream := []byte("stream")
 	endstream := []byte("endstream")
 	start := bytes.Index(p.data, stream)
 	if start != -1 {
 		end := bytes.LastIndex(p.data, endstream)
+		if end < start+len(stream) {
+			return errors.New("endstream not found")
+		}
 
 		var head, body bytes.Buffer
 		head.Write(p.data[0:start])
 		body.Write(p.data[start+len(stream) : end])
-		tmp := bytes.Trim(body.Bytes(), "\r\n")
-		tmp = bytes.Trim(tmp, "\n")
+		tmp := body.Bytes()
+		if bytes.HasPrefix(tmp, []byte("\r\n")) { //only end of line after keyword is not data of stream
+			tmp = tmp[2:]
+		} else if bytes.HasPrefix(tmp, []byte("\n")) || bytes.HasPrefix(tmp, []byte("\r")) {
+			tmp = tmp[1:]
+		}
+		length, err := streamLength(pdf, &p.data)
+		if err == nil && length >= 0 && length <= len(tmp) {
+			tmp = tmp[0:length]
+		} else { //bad length, stream ends before end of line of endstream
+			tmp = bytes.TrimSuffix(tmp, []byte("\n"))
+			tmp = bytes.TrimSuffix(tmp, []byte("\r"))
+		}
 		bodyRc4, err := rc4Cip(protection.Objectkey(p.objID), tmp)
 		if err != nil {
 			return err
diff --git a/pdft.go b/pdft.go
index f0a1944..13b8430 100644
--- a/pdft.go
+++ b/pdft.go
@@ -702,7 +702,10 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		max := newpdf.Len()
 		x := 0
 		for x < max {
-			newpdf.objs[x].encrypt(i.protection())
+			err = newpdf.objs[x].encrypt(&newpdf, i.protection())
+			if err != nil {
+				return nil, 0, err
+			}
 			x++
 		}
 	}
-- 
2.43.0


From bcb4effaeb57709708848b048ff7c5113361321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:30 +0000
Subject: [PATCH 11/66] fix: strings of a protected document must be encrypted

Viewers decrypt every string outside of streams too, so links, form values and
the like of the template came out as garbage.
---
 pdf_obj_data.go | 110 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 108 insertions(+), 2 deletions(-)

diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index ff69e08..f0bdff4 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -3,7 +3,10 @@ package pdft
 import (
 	"bytes"
 	"crypto/rc4"
+	"encoding/hex"
 	"errors"
+	"fmt"
+	"strings"
 
 	gopdf "github.com/signintech/pdft/minigopdf"
 )
@@ -69,7 +72,13 @@ func (p *PDFObjData) encrypt(pdf *PDFData, protection *gopdf.PDFProtection) erro
 	stream := []byte("stream")
 	endstream := []byte("endstream")
 	start := bytes.Index(p.data, stream)
-	if start != -1 {
+	if start == -1 {
+		data, err := encryptStrings(p.data, protection.Objectkey(p.objID))
+		if err != nil {
+			return err
+		}
+		p.data = data
+	} else {
 		end := bytes.LastIndex(p.data, endstream)
 		if end < start+len(stream) {
 			return errors.New("endstream not found")
@@ -96,8 +105,13 @@ func (p *PDFObjData) encrypt(pdf *PDFData, protection *gopdf.PDFProtection) erro
 			return err
 		}
 
+		headRc4, err := encryptStrings(head.Bytes(), protection.Objectkey(p.objID))
+		if err != nil {
+			return err
+		}
+
 		var data bytes.Buffer
-		data.Write(head.Bytes())
+		data.Write(headRc4)
 		data.Write(stream)
 		data.WriteString("\n")
 		data.Write(bodyRc4)
@@ -108,6 +122,98 @@ func (p *PDFObjData) encrypt(pdf *PDFData, protection *gopdf.PDFProtection) erro
 	return nil
 }
 
+// encryptStrings encrypt all strings in data of object (without stream)
+func encryptStrings(data []byte, key []byte) ([]byte, error) {
+	var out bytes.Buffer
+	i := 0
+	for i < len(data) {
+		var str []byte
+		if data[i] == '(' {
+			str, i = readLiteralString(data, i)
+		} else if bytes.HasPrefix(data[i:], []byte("<<")) {
+			out.WriteString("<<")
+			i += 2
+			continue
+		} else if data[i] == '<' {
+			str, i = readHexString(data, i)
+		} else {
+			out.WriteByte(data[i])
+			i++
+			continue
+		}
+		strRc4, err := rc4Cip(key, str)
+		if err != nil {
+			return nil, err
+		}
+		out.WriteString(fmt.Sprintf("<%X>", strRc4))
+	}
+	return out.Bytes(), nil
+}
+
+// readLiteralString read string such as (text) that start at i, return the string and index after it
+func readLiteralString(data []byte, i int) ([]byte, int) {
+	escapes := map[byte]byte{'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'f': '\f'}
+	var str []byte
+	depth := 0
+	for i < len(data) {
+		c := data[i]
+		i++
+		if c == '(' {
+			depth++
+			if depth == 1 {
+				continue
+			}
+		} else if c == ')' {
+			depth--
+			if depth == 0 {
+				break
+			}
+		} else if c == '\r' { //end of line in string is \n
+			if i < len(data) && data[i] == '\n' {
+				i++
+			}
+			c = '\n'
+		} else if c == '\\' && i < len(data) {
+			c = data[i]
+			i++
+			if val, ok := escapes[c]; ok {
+				c = val
+			} else if c == '\r' || c == '\n' { //line continuation
+				if c == '\r' && i < len(data) && data[i] == '\n' {
+					i++
+				}
+				continue
+			} else if c >= '0' && c <= '7' {
+				val := int(c - '0')
+				for n := 0; n < 2 && i < len(data) && data[i] >= '0' && data[i] <= '7'; n++ {
+					val = val*8 + int(data[i]-'0')
+					i++
+				}
+				c = byte(val)
+			}
+		}
+		str = append(str, c)
+	}
+	return str, i
+}
+
+// readHexString read string such as <0A1B> that start at i, return the string and index after it
+func readHexString(data []byte, i int) ([]byte, int) {
+	var digits []byte
+	i++
+	for i < len(data) && data[i] != '>' {
+		if strings.IndexByte("0123456789abcdefABCDEF", data[i]) >= 0 {
+			digits = append(digits, data[i])
+		}
+		i++
+	}
+	if len(digits)%2 == 1 {
+		digits = append(digits, '0')
+	}
+	str, _ := hex.DecodeString(string(digits))
+	return str, i + 1
+}
+
 func rc4Cip(key []byte, src []byte) ([]byte, error) {
 	cip, err := rc4.NewCipher(key)
 	if err != nil {
-- 
2.43.0


From 3d9773cb28ea106807f2847c727c2a25548e8a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:51 +0000
Subject: [PATCH 12/66] fix: setting protection must not write into memory of
 the caller's passwords

---
 minigopdf/pdf_protection.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/minigopdf/pdf_protection.go b/minigopdf/pdf_protection.go
index 5fa588b..22fc367 100644
--- a/minigopdf/pdf_protection.go
+++ b/minigopdf/pdf_protection.go
@@ -50,10 +50,8 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
-	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
-	ownerPassWithPadding := ownerPass[0:32]
+	userPassWithPadding := passWithPadding(userPass)
+	ownerPassWithPadding := passWithPadding(ownerPass)
 
 	//oValue
 	oValue, err := p.createOValue(userPassWithPadding, ownerPassWithPadding)
@@ -72,6 +70,14 @@ func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte,
 	return nil
 }
 
+// passWithPadding copy pass and add padding, memory of caller after pass must not be changed
+func passWithPadding(pass []byte) []byte {
+	tmp := make([]byte, 0, len(pass)+len(protectionPadding))
+	tmp = append(tmp, pass...)
+	tmp = append(tmp, protectionPadding...)
+	return tmp[0:32]
+}
+
 // EncryptionObj get Encryption Object
 func (p *PDFProtection) EncryptionObj() *EncryptionObj {
 	return p.encryptionObj()
-- 
2.43.0


From d757cc05f76812de47aaad94d552f02e7a1db16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:52 +0000
Subject: [PATCH 13/66] fix: creating object key must not write into the shared
 encryption key

---
 minigopdf/pdf_protection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minigopdf/pdf_protection.go b/minigopdf/pdf_protection.go
index 22fc367..75d0036 100644
--- a/minigopdf/pdf_protection.go
+++ b/minigopdf/pdf_protection.go
@@ -142,7 +142,9 @@ func (p *PDFProtection) Objectkey(objID int) []byte {
 func (p *PDFProtection) objectkey(n int) []byte {
 	tmp := make([]byte, 8, 8)
 	binary.LittleEndian.PutUint32(tmp, uint32(n))
-	tmp2 := append(p.encryptionKey, tmp[0], tmp[1], tmp[2], 0, 0)
+	tmp2 := make([]byte, 0, len(p.encryptionKey)+5) //copy, encryptionKey is shared
+	tmp2 = append(tmp2, p.encryptionKey...)
+	tmp2 = append(tmp2, tmp[0], tmp[1], tmp[2], 0, 0)
 	tmp3 := md5.Sum(tmp2)
 	return tmp3[0:10]
 }
-- 
2.43.0


From 95571a1d40fec64e029a559ee7891090781121a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:53 +0000
Subject: [PATCH 14/66] fix: default owner password must not be guessable from
 the clock

---
 minigopdf/pdf_protection.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/minigopdf/pdf_protection.go b/minigopdf/pdf_protection.go
index 75d0036..fab6a22 100644
--- a/minigopdf/pdf_protection.go
+++ b/minigopdf/pdf_protection.go
@@ -3,10 +3,9 @@ package gopdf
 import (
 	"bytes"
 	"crypto/md5"
+	"crypto/rand"
 	"crypto/rc4"
 	"encoding/binary"
-	"math/rand"
-	"time"
 )
 
 const (
@@ -43,7 +42,11 @@ func (p *PDFProtection) SetProtection(permissions int, userPass []byte, ownerPas
 func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPass []byte) error {
 	protection := 192 | permissions
 	if ownerPass == nil || len(ownerPass) == 0 {
-		ownerPass = p.randomPass(24)
+		var err error
+		ownerPass, err = p.randomPass(24)
+		if err != nil {
+			return err
+		}
 	}
 	return p.generateEncryptionKey(userPass, ownerPass, protection)
 }
@@ -124,14 +127,17 @@ func (p *PDFProtection) createUValue(userPassWithPadding []byte, oValue []byte,
 	return dest, nil
 }
 
-func (p *PDFProtection) randomPass(strlen int) []byte {
-	rand.Seed(time.Now().UTC().UnixNano())
+func (p *PDFProtection) randomPass(strlen int) ([]byte, error) {
 	const chars = "abcdef0123456789"
 	result := make([]byte, strlen)
+	_, err := rand.Read(result)
+	if err != nil {
+		return nil, err
+	}
 	for i := 0; i < strlen; i++ {
-		result[i] = chars[rand.Intn(len(chars))]
+		result[i] = chars[int(result[i])%len(chars)]
 	}
-	return result
+	return result, nil
 }
 
 // Objectkey create object key from ObjID
-- 
2.43.0


From 8e9de6cdda788741634d1d564ad151210ae6538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:48 +0000
Subject: [PATCH 15/66] fix: PNG with chunks of 32 KB and larger or empty
 chunks must be read completely

---
 minigopdf/image_obj_parse.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index e230ff5..14a888f 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"image"
 	"image/color"
+	"io"
 	"io/ioutil"
 	"strings"
 )
@@ -284,10 +285,6 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 		}
-
-		if n <= 0 {
-			break
-		}
 	} //end for
 
 	//info.data = data //ok
@@ -416,18 +413,15 @@ func readInt(f *bytes.Reader) (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	var v int
-	if u >= 0x8000 {
-		v = int(u) - 65536
-	} else {
-		v = int(u)
-	}
-	return v, nil
+	return int(u), nil
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 654e3d757a0cffbea168e9fd980211c649411d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:49 +0000
Subject: [PATCH 16/66] fix: PNG in gray with alpha must keep its pixels

---
 minigopdf/image_obj_parse.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index 14a888f..2dcf4e0 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -364,15 +364,16 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 				i++
 			}
-			info.smask, err = compress(alpha)
-			if err != nil {
-				return err
-			}
+		}
 
-			info.data, err = compress(color)
-			if err != nil {
-				return err
-			}
+		info.smask, err = compress(alpha)
+		if err != nil {
+			return err
+		}
+
+		info.data, err = compress(color)
+		if err != nil {
+			return err
 		}
 
 	} else {
-- 
2.43.0


From 29b411f6a518a28d7c93e1ee46423c68de1ce284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:50 +0000
Subject: [PATCH 17/66] fix: PNG with palette must refer to its own palette

---
 minigopdf/image_obj_parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index 2dcf4e0..136a7fd 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -22,7 +22,11 @@ func buildImgProp(imginfo imgInfo) (*bytes.Buffer, error) {
 	buffer.WriteString(fmt.Sprintf("/Height %d\n", imginfo.h)) //  /Height 942\n"
 	if isColspaceIndexed(imginfo) {
 		size := len(imginfo.pal)/3 - 1
-		buffer.WriteString(fmt.Sprintf("/ColorSpace [/Indexed /DeviceRGB %d %d 0 R]\n", size, imginfo.deviceRGBObjID+1))
+		if imginfo.deviceRGBObjID == 0 { //no object of palette
+			buffer.WriteString(fmt.Sprintf("/ColorSpace [/Indexed /DeviceRGB %d <%X>]\n", size, imginfo.pal))
+		} else {
+			buffer.WriteString(fmt.Sprintf("/ColorSpace [/Indexed /DeviceRGB %d %d 0 R]\n", size, imginfo.deviceRGBObjID+1))
+		}
 	} else {
 		buffer.WriteString(fmt.Sprintf("/ColorSpace /%s\n", imginfo.colspace))
 		if imginfo.colspace == "DeviceCMYK" {
-- 
2.43.0


From d2b0f7d7a0a52c10a72268108ef8cd7f3652a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:51 +0000
Subject: [PATCH 18/66] fix: damaged PNG must be an error, not a panic

---
 minigopdf/image_obj_parse.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index 136a7fd..158edf2 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -253,6 +253,9 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 
+			if (ct[0] == 0 && len(t) < 2) || (ct[0] == 2 && len(t) < 6) {
+				return errors.New("Incorrect tRNS of PNG file")
+			}
 			if ct[0] == 0 {
 				trns = []byte{(t[1])}
 			} else if ct[0] == 2 {
@@ -326,6 +329,14 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			return err
 		}
 
+		channels := 4
+		if ct[0] == 4 {
+			channels = 2
+		}
+		if (1+channels*w)*h > len(afterZipData) {
+			return errors.New("Incomplete data of PNG file")
+		}
+
 		var color []byte
 		var alpha []byte
 		if ct[0] == 4 {
-- 
2.43.0


From 7dd0a93dde8631cee4c32391dfe3e331dfa197ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:20 +0000
Subject: [PATCH 19/66] fix: bytes above 0x7F in dictionaries that are written
 again must be kept

---
 pdf_obj_property_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index 5ff6a67..db382a7 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -130,7 +130,7 @@ func (p *parseProps) loop(i int, status string) (int, string) {
 	count01 := 0
 	count02 := 0
 	for i < p.max {
-		r := string(p.str[i])
+		r := p.str[i : i+1]
 		if status == "" && r == "/" {
 			p.propsIndex++
 			p.props.append(PDFObjPropertyData{})
-- 
2.43.0


From 99b9172b72f715ec4025cc2c6ef7dad740ae1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:21 +0000
Subject: [PATCH 20/66] fix: /MediaBox in its own object must be used for the
 page height

---
 pdf_parse.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pdf_parse.go b/pdf_parse.go
index c55d31e..c7e3b8f 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -2,7 +2,6 @@ package pdft
 
 import (
 	"errors"
-	"fmt"
 	"io"
 	"io/ioutil"
 	"strconv"
@@ -60,12 +59,19 @@ func parsePageSize(pdf *PDFData) error {
 		if propContentsObj == nil {
 			continue
 		}
-		valType := propContentsObj.valType()
-		if valType != array {
-			fmt.Printf("MediaBox type is not array, but %s", valType)
-			continue
+		rawVal := propContentsObj.rawVal
+		if propContentsObj.valType() != array { //array is in other object
+			objID, _, err := propContentsObj.asDictionary()
+			if err != nil {
+				return err
+			}
+			obj := pdf.getObjByID(objID)
+			if obj == nil {
+				return ErrorObjectIDNotFound
+			}
+			rawVal = string(obj.data)
 		}
-		parseMediaBoxd, err := parseFloatSlice(propContentsObj.rawVal)
+		parseMediaBoxd, err := parseFloatSlice(rawVal)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 45bea20ebc69f236afd0a5d3ed8539bbf5208d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:49 +0000
Subject: [PATCH 21/66] fix: damaged templates must be an error, not a panic or
 endless recursion

---
 crawl.go                 |  9 +++++++++
 pdf_data.go              | 42 ++++++++++++++++++++++++++++++++--------
 pdf_obj_data.go          |  6 ++++++
 pdf_obj_property_data.go |  3 +++
 pdf_parse.go             |  7 +++++--
 pdft.go                  | 15 +++++++++++---
 6 files changed, 69 insertions(+), 13 deletions(-)

diff --git a/crawl.go b/crawl.go
index 4cdab91..9883090 100644
--- a/crawl.go
+++ b/crawl.go
@@ -32,6 +32,9 @@ func (c *crawl) set(pdf *PDFData, objID int, p ...string) {
 
 func (c *crawl) run() error {
 	objdata := c.pdf.getObjByID(c.objID)
+	if objdata == nil {
+		return ErrorObjectIDNotFound
+	}
 	err := c.next(&objdata.data, 0, c.objID, c.resultByObjID(c.objID))
 	return err
 }
@@ -67,6 +70,9 @@ func (c *crawl) next(data *[]byte, i int, id int, cr *crawlResult) error {
 					return err
 				}
 				objdata := c.pdf.getObjByID(objID)
+				if objdata == nil {
+					return ErrorObjectIDNotFound
+				}
 				err = c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
 				if err != nil {
 					return err
@@ -80,6 +86,9 @@ func (c *crawl) next(data *[]byte, i int, id int, cr *crawlResult) error {
 				}
 				for _, objID := range objIDs {
 					objdata := c.pdf.getObjByID(objID)
+					if objdata == nil {
+						return ErrorObjectIDNotFound
+					}
 					c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
 				}
 			} else if propType == object {
diff --git a/pdf_data.go b/pdf_data.go
index c0f13c3..ee6bd81 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -87,8 +87,14 @@ func (p *PDFData) getObjByID(objID int) *PDFObjData {
 // getPageObjIDs get page obj IDs
 func (p *PDFData) getPageObjIDs() ([]int, error) {
 	results := []int{}
-	rootProps, _ := p.getObjByID(p.trailer.rootObjID).readProperties()
-	rootPagesID, _, _ := rootProps.getPropByKey("Pages").asDictionary()
+	rootProps, err := p.getObjByID(p.trailer.rootObjID).readProperties()
+	if err != nil {
+		return nil, err
+	}
+	rootPagesID, _, err := rootProps.getPropByKey("Pages").asDictionary()
+	if err != nil {
+		return nil, err
+	}
 	objProps := map[int]*PDFObjPropertiesData{} // cache props
 	getObjProps := func(id int) *PDFObjPropertiesData {
 		if v, ok := objProps[id]; ok {
@@ -115,17 +121,30 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 		}
 		return false
 	}
-	var visit func(id int) // Preorder Traversal, supporting for page nesting
-	visit = func(id int) {
+	visiting := map[int]bool{}
+	var visit func(id int) error // Preorder Traversal, supporting for page nesting
+	visit = func(id int) error {
 		if kids := getKids(id); kids != nil {
+			if visiting[id] {
+				return errors.New("page tree has a loop")
+			}
+			visiting[id] = true
 			for _, kid := range kids {
-				visit(kid)
+				err := visit(kid)
+				if err != nil {
+					return err
+				}
 			}
+			visiting[id] = false
 		} else if isPage(id) {
 			results = append(results, id)
 		}
+		return nil
+	}
+	err = visit(rootPagesID)
+	if err != nil {
+		return nil, err
 	}
-	visit(rootPagesID)
 	return results, nil
 }
 
@@ -389,7 +408,10 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			return err
 		}
 	}
-	pageObjIDs, _ := p.getPageObjIDs()
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return err
+	}
 	contentsUses := make(map[int]int)
 	for _, pageObjID := range pageObjIDs {
 		objIDs, err := p.contentsObjIDs(pageObjID)
@@ -519,7 +541,11 @@ func (p *PDFData) ownContents(pageObjID int, contentsUses map[int]int) error {
 	}
 	last := len(objIDs) - 1
 	if contentsUses[objIDs[last]] > 1 {
-		objIDs[last] = p.putNewObject(*p.getObjByID(objIDs[last]))
+		contentsObj := p.getObjByID(objIDs[last])
+		if contentsObj == nil {
+			return ErrorObjectIDNotFound
+		}
+		objIDs[last] = p.putNewObject(*contentsObj)
 		prop := props.getPropByKey("Contents")
 		if prop.valType() == array {
 			prop.setAsDictionaryArr(objIDs, nil)
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index f0bdff4..8f4100a 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -19,6 +19,9 @@ type PDFObjData struct {
 
 func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 
+	if stratoffset > len(*raw) {
+		return errors.New("bad offset of obj")
+	}
 	tmp := (*raw)[stratoffset:]
 	endObjIndex := regexpEndObj.FindAllIndex(tmp, 1)
 	if len(endObjIndex) <= 0 {
@@ -49,6 +52,9 @@ func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 
 // ReadProperties read all obj Properties
 func (p *PDFObjData) readProperties() (*PDFObjPropertiesData, error) {
+	if p == nil {
+		return nil, ErrorObjectIDNotFound
+	}
 	var props PDFObjPropertiesData
 	err := readProperties(&p.data, &props)
 	if err != nil {
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index db382a7..04cc8cd 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -42,6 +42,9 @@ func (p *PDFObjPropertyData) setAsDictionaryArr(values, revisions []int) {
 }
 
 func (p *PDFObjPropertyData) asDictionary() (int, int, error) {
+	if p == nil {
+		return 0, 0, ErrorObjectIDNotFound
+	}
 	return readObjIDFromDictionary(p.rawVal)
 }
 
diff --git a/pdf_parse.go b/pdf_parse.go
index c7e3b8f..24819f7 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -115,8 +115,8 @@ func setPagesObj(pdf *PDFData) error {
 	}
 
 	pagesObj := pdf.getObjByID(pagesID)
-	if err != nil {
-		return err
+	if pagesObj == nil {
+		return ErrorObjectIDNotFound
 	}
 	pdf.pagesObj = pagesObj
 	return nil
@@ -134,6 +134,9 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 		return errors.New("startxref not found")
 	}
 
+	if indexTrailers[0][1] > indexStartxrefs[0][0] {
+		return errors.New("trailer must be before startxref")
+	}
 	tmp := (*raw)[indexTrailers[0][1]:indexStartxrefs[0][0]]
 	var props PDFObjPropertiesData
 	err := readProperties(&tmp, &props)
diff --git a/pdft.go b/pdft.go
index 13b8430..6244823 100644
--- a/pdft.go
+++ b/pdft.go
@@ -151,7 +151,11 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if err != nil {
 		return err
 	}
-	contentID = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
+	contentObj := i.pdf.getObjByID(contentID)
+	if contentObj == nil {
+		return ErrorObjectIDNotFound
+	}
+	contentID = i.pdf.putNewObject(*contentObj) //copy object value
 	pageContent.setAsDictionary(contentID, 0)
 	pageObj.setProperties(props)
 
@@ -206,6 +210,11 @@ func (i *PDFt) setPages(pageObjIds []int) error {
 	if err != nil {
 		return err
 	}
+	count := props.getPropByKey("Count")
+	kids := props.getPropByKey("Kids")
+	if count == nil || kids == nil {
+		return errors.New("/Count or /Kids of /Pages not found")
+	}
 	for _, pageObjID := range pageObjIds {
 		err = i.pdf.movePageTo(pageObjID, rootPagesID)
 		if err != nil {
@@ -213,8 +222,8 @@ func (i *PDFt) setPages(pageObjIds []int) error {
 		}
 	}
 	nPage := len(pageObjIds)
-	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
-	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
+	count.rawVal = strconv.Itoa(nPage)
+	kids.setAsDictionaryArr(pageObjIds, nil)
 	pagesObj.setProperties(props)
 	return parsePageSize(&i.pdf) //page order is changed
 }
-- 
2.43.0


From 0d8509991c0319cd2d4462a72731ff377989d7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:39 +0000
Subject: [PATCH 22/66] fix: last character of a cmap format 12 group must be
 found

---
 minigopdf/subset_font_obj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 284706e..1bc87be 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -186,7 +186,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat12(r rune) (uint, error) {
 	value := uint(r)
 	gTbs := s.ttfp.GroupingTables()
 	for _, gTb := range gTbs {
-		if value >= gTb.StartCharCode && value < gTb.EndCharCode {
+		if value >= gTb.StartCharCode && value <= gTb.EndCharCode {
 			gIndex := (value - gTb.StartCharCode) + gTb.GlyphID
 			return gIndex, nil
 		}
-- 
2.43.0


From 1a1e5af2c1e528a3527f1eb4f5bfa7375c1b4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:41 +0000
Subject: [PATCH 23/66] fix: components of nested composite glyphs must be
 embedded

---
 minigopdf/pdf_dictionary_obj.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index c31501b..c0edb8b 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -266,8 +266,7 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 	}
 
 	i := 0
-	count := len(glyphs)
-	for i < count {
+	for i < len(glyphArray) { //component of composite glyph can be composite glyph too
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
 		i++
 	}
-- 
2.43.0


From 780bee6fbcacd5d75ba86fb1a7908ad50f3804f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:43 +0000
Subject: [PATCH 24/66] fix: truncated fonts must be an error, fonts without
 padding at the end must work

---
 minigopdf/fontmaker/core/ttfparser.go | 3 +++
 minigopdf/pdf_dictionary_obj.go       | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index c750a59..c27d694 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -269,6 +269,9 @@ func (t *TTFParser) parse(rd io.Reader) error {
 		table.Offset = uint(offset)
 		table.CheckSum = checksum
 		table.Length = length
+		if offset+length > uint(len(fontdata)) {
+			return errors.New("file out of length")
+		}
 		//fmt.Printf("\n\ntag=%s  \nOffset = %d\nPaddedLength =%d\n\n ", tag, table.Offset, table.PaddedLength())
 		t.tables[t.BytesToString(tag)] = table
 		i++
diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index c0edb8b..dd8f3e2 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -230,7 +230,9 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 			entry.CheckSum = CheckSum(data)
 			WriteBytes(&buff, data, 0, len(data))
 		} else {
-			WriteBytes(&buff, ttfp.FontData(), int(entry.Offset), entry.PaddedLength())
+			data := make([]byte, entry.PaddedLength()) //table at end of file can be without padding
+			copy(data, ttfp.FontData()[entry.Offset:entry.Offset+entry.Length])
+			WriteBytes(&buff, data, 0, len(data))
 		}
 		endPosition := buff.Position()
 		tablePosition = endPosition
-- 
2.43.0


From 3e00d1b98bec6ee89457a2339cd2c962873823b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:45 +0000
Subject: [PATCH 25/66] fix: font names with delimiters must not break the
 objects of the font

---
 minigopdf/strhelper.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/minigopdf/strhelper.go b/minigopdf/strhelper.go
index 18f0614..a5ef9b8 100644
--- a/minigopdf/strhelper.go
+++ b/minigopdf/strhelper.go
@@ -1,6 +1,8 @@
 package gopdf
 
 import (
+	"bytes"
+	"fmt"
 	"math/big"
 	"strings"
 )
@@ -22,7 +24,16 @@ func StrHelperGetStringWidth(str string, fontSize int, ifont IFont) float64 {
 func CreateEmbeddedFontSubsetName(name string) string {
 	name = strings.Replace(name, " ", "+", -1)
 	name = strings.Replace(name, "/", "+", -1)
-	return name
+	var buff bytes.Buffer
+	for i := 0; i < len(name); i++ {
+		c := name[i]
+		if c <= ' ' || c > '~' || strings.IndexByte("#()<>[]{}%", c) >= 0 { //can not be in name of pdf
+			buff.WriteString(fmt.Sprintf("#%02X", c))
+		} else {
+			buff.WriteByte(c)
+		}
+	}
+	return buff.String()
 }
 
 // ReadShortFromByte read short from byte array
-- 
2.43.0


From 519727c90395568269ce416b781ea43425c05d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 26/66] fix: /ToUnicode of characters above U+FFFF must be
 UTF-16

---
 minigopdf/unicode_map.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index 4068711..de9412d 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"bytes"
 	"fmt"
+	"unicode/utf16"
 )
 
 // UnicodeMap unicode map
@@ -76,6 +77,10 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 		glyphIndexToCharacter.set(index, k)
 	}
 
+	if hiIndex < 0 { //no character
+		lowIndex, hiIndex = 0, 0
+	}
+
 	var buff bytes.Buffer
 	buff.WriteString(prefix)
 	buff.WriteString("1 begincodespacerange\n")
@@ -85,7 +90,12 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	indexs := glyphIndexToCharacter.allIndexs()
 	for _, k := range indexs {
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		buff.WriteString(fmt.Sprintf("<%04X><%04X><%04X>\n", k, k, v))
+		unicode := fmt.Sprintf("%04X", v)
+		if v > 0xFFFF { //UTF-16
+			r1, r2 := utf16.EncodeRune(v)
+			unicode = fmt.Sprintf("%04X%04X", r1, r2)
+		}
+		buff.WriteString(fmt.Sprintf("<%04X><%04X><%s>\n", k, k, unicode))
 	}
 	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
-- 
2.43.0


From 9e06543ff724687834f4416e2275bf3384da36bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 27/66] fix: design view must be the same every time

---
 render/render.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/render/render.go b/render/render.go
index 5d201f9..07b6d2f 100644
--- a/render/render.go
+++ b/render/render.go
@@ -3,6 +3,7 @@ package render
 import (
 	"fmt"
 	"log"
+	"sort"
 
 	"github.com/signintech/pdft"
 	"github.com/signintech/pdft/textbreak"
@@ -78,7 +79,13 @@ func (r *Render) ImgBase64(key string, base64 string) error {
 // ShowDesignView for debug
 func (r *Render) ShowDesignView() {
 	r.ShowCellBorder(true)
-	for key, finfo := range r.finfoMap {
+	var keys []string
+	for key := range r.finfoMap {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys) //same order every time
+	for _, key := range keys {
+		finfo := r.finfoMap[key]
 		r.SetFont(finfo.Font, "", finfo.Size)
 		r.Insert("#"+key, finfo.PageNum, finfo.X, finfo.Y, finfo.W, finfo.H, finfo.Align, nil)
 	}
-- 
2.43.0


From 8f1e022a9fea2a21c2c8faeeaaa9fc3d7b771d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:53 +0000
Subject: [PATCH 28/66] fix: GoPdf must give the same document when it is
 compiled again

---
 minigopdf/content_obj.go | 8 +++++---
 minigopdf/gopdf.go       | 6 +++++-
 minigopdf/procset_obj.go | 3 +--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/minigopdf/content_obj.go b/minigopdf/content_obj.go
index 19940a8..fed7f6c 100644
--- a/minigopdf/content_obj.go
+++ b/minigopdf/content_obj.go
@@ -41,15 +41,17 @@ func (c *ContentObj) build(objID int) error {
 			// should never happen...
 			return err
 		}
-		c.stream.WriteTo(zwriter)
+		zwriter.Write(c.stream.Bytes())
 		buff.WriteTo(zwriter)
 		zwriter.Close()
 		cPtr = &zbuff
 	} else {
 		// zlib compressLevel = 0 adds header and thus
 		// needs /FlateDecode => pass through
-		buff.WriteTo(&c.stream)
-		cPtr = &c.stream
+		var sbuff bytes.Buffer
+		sbuff.Write(c.stream.Bytes())
+		buff.WriteTo(&sbuff)
+		cPtr = &sbuff
 	}
 	streamlen := (*cPtr).Len()
 	c.buffer.WriteString("<<\n")
diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 637e7e9..31e2909 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -412,6 +412,7 @@ func (gp *GoPdf) compilePdf() error {
 		objID := i + 1
 		linelens[i] = gp.buf.Len()
 		pdfObj := gp.pdfObjs[i]
+		pdfObj.getObjBuff().Reset() //clear result of previous build
 		err = pdfObj.build(objID)
 		if err != nil {
 			return err
@@ -714,7 +715,7 @@ func (gp *GoPdf) protection() *PDFProtection {
 
 func (gp *GoPdf) prepare() {
 
-	if gp.isUseProtection() {
+	if gp.isUseProtection() && gp.encryptionObjID == 0 {
 		encObj := gp.pdfProtection.encryptionObj()
 		gp.addObj(encObj)
 	}
@@ -723,6 +724,8 @@ func (gp *GoPdf) prepare() {
 		indexCurrPage := -1
 		var pagesObj *PagesObj
 		pagesObj = gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -732,6 +735,7 @@ func (gp *GoPdf) prepare() {
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
 				indexCurrPage = i
+				gp.pdfObjs[i].(*PageObj).Contents = ""
 			} else if objtype == "Content" {
 				if indexCurrPage != -1 {
 					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
diff --git a/minigopdf/procset_obj.go b/minigopdf/procset_obj.go
index 8c6a48f..acd7ca3 100644
--- a/minigopdf/procset_obj.go
+++ b/minigopdf/procset_obj.go
@@ -38,8 +38,7 @@ func (pr *ProcSetObj) build(objID int) error {
 	i = 0
 	max = len(pr.RealteXobjs)
 	for i < max {
-		pr.buffer.WriteString(fmt.Sprintf("/I%d %d 0 R\n", pr.getRoot().curr.CountOfL+1, pr.RealteXobjs[i].IndexOfObj+1))
-		pr.getRoot().curr.CountOfL++
+		pr.buffer.WriteString(fmt.Sprintf("/I%d %d 0 R\n", i+1, pr.RealteXobjs[i].IndexOfObj+1))
 		i++
 	}
 	pr.buffer.WriteString(">>\n")
-- 
2.43.0


From 10dc1a55b63136df7d8fcc0e8fb91f1e38f628d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:55 +0000
Subject: [PATCH 29/66] fix: GoPdf.MeasureTextWidth must not panic

---
 minigopdf/gopdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 31e2909..953e142 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -629,7 +629,7 @@ func (gp *GoPdf) MeasureTextWidth(text string) (float64, error) {
 		return 0, err
 	}
 
-	_, _, textWidthPdfUnit, err := createContent(gp.curr.Font_ISubset, text, gp.curr.Font_Size, nil, nil)
+	_, _, textWidthPdfUnit, err := createContent(gp.curr.Font_ISubset, text, gp.curr.Font_Size, nil, new(bytes.Buffer))
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From cbc0c89b05f50787090e236e16b3777ec6586f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:57 +0000
Subject: [PATCH 30/66] fix: GoPdf objects must refer to the right mask and
 palette and /Info must be well-formed

---
 minigopdf/gopdf.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 953e142..38d57eb 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -247,7 +247,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			if err != nil {
 				return err
 			}
-			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj)
+			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj) + 1
 		}
 
 		if imgobj.isColspaceIndexed() {
@@ -255,6 +255,9 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			if err != nil {
 				return err
 			}
+			dRGB.init(func() *GoPdf {
+				return gp
+			})
 			imgobj.imginfo.deviceRGBObjID = gp.addObj(dRGB)
 		}
 
@@ -822,7 +825,7 @@ func (gp *GoPdf) bindInfo(buff *bytes.Buffer) {
 	}
 
 	if !zerotime.Equal(gp.info.CreationDate) {
-		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)>>\n", infodate(gp.info.CreationDate)))
+		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)\n", infodate(gp.info.CreationDate)))
 	}
 
 	buff.WriteString(" >>\n")
-- 
2.43.0


From 9291005465be5c4d71fbe8343db55e78e0b3c044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:44 +0000
Subject: [PATCH 31/66] fix: color of inserted text must not change when the
 caller changes the color value later

---
 pdft.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdft.go b/pdft.go
index 6244823..9d847eb 100644
--- a/pdft.go
+++ b/pdft.go
@@ -321,7 +321,10 @@ func (i *PDFt) InsertWrapText(text string,
 func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64, h float64, align int, fontColor *FontColor) error {
 	var ct ContentText
 	ct.text = text
-	ct.fontColor = fontColor
+	if fontColor != nil { //copy, caller can change it later
+		color := *fontColor
+		ct.fontColor = &color
+	}
 	ct.fontName = i.curr.fontName
 	ct.fontStyle = i.curr.fontStyle
 	ct.fontSize = i.curr.fontSize
-- 
2.43.0


From d175736070c0d11d8a1f589e8bf73350c9a504b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:45 +0000
Subject: [PATCH 32/66] fix: using a document before it is opened must not
 panic

---
 pdft.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pdft.go b/pdft.go
index 9d847eb..2bffeb7 100644
--- a/pdft.go
+++ b/pdft.go
@@ -491,6 +491,9 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 		pdfimg.setImgObj(imgObj)
 
 		i.pdfImgs = append(i.pdfImgs, pdfimg)
+		if i.pdfImgsMd5Map == nil { //not open yet
+			i.pdfImgsMd5Map = make(map[string]*PDFImageData)
+		}
 		i.pdfImgsMd5Map[md5Str] = pdfimg
 	}
 	var ct contentImgBase64
@@ -524,6 +527,9 @@ func (i *PDFt) AddFont(name string, ttfpath string) error {
 		return err
 	}
 
+	if i.fontDatas == nil { //not open yet
+		i.fontDatas = make(map[string]*PDFFontData)
+	}
 	i.fontDatas[name] = fontData
 	return nil
 }
@@ -539,6 +545,9 @@ func (i *PDFt) AddFontFrom(name string, reader io.Reader) error {
 		return err
 	}
 
+	if i.fontDatas == nil { //not open yet
+		i.fontDatas = make(map[string]*PDFFontData)
+	}
 	i.fontDatas[name] = fontData
 	return nil
 }
-- 
2.43.0


From 90f1347cedc1cc109bc6df3d30a20a18f5ca326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:54 +0000
Subject: [PATCH 33/66] fix: black and colors with sum 256 must not take the
 color of the previous text

---
 content_text.go                 | 4 ++++
 minigopdf/cache_content_text.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/content_text.go b/content_text.go
index e236813..75a78eb 100644
--- a/content_text.go
+++ b/content_text.go
@@ -88,6 +88,10 @@ func (c *ContentText) toSteram() (*bytes.Buffer, error) {
 	}
 	buff.Write([]byte("\r\n"))
 
+	if c.fontColor != nil && rgb == (gopdf.Rgb{}) { //black must not be color of previous text
+		return bytes.NewBufferString("0.00 0.00 0.00 rg\n" + buff.String()), nil
+	}
+
 	return buff, nil
 }
 
diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 2660c79..db38dec 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -129,7 +129,7 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 	stream.WriteString("BT\n")
 	stream.WriteString(fmt.Sprintf("%0.2f %0.2f TD\n", x, y))
 	stream.WriteString("/F" + strconv.Itoa(c.fontCountIndex) + " " + strconv.Itoa(c.fontSize) + " Tf\n")
-	if r+g+b != 0 {
+	if r != 0 || g != 0 || b != 0 { //sum of uint8 can overflow
 		rFloat := float64(r) * 0.00392156862745
 		gFloat := float64(g) * 0.00392156862745
 		bFloat := float64(b) * 0.00392156862745
-- 
2.43.0


From a32634baf0b9bc66fbc64038920ebcc1e79eb94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:56 +0000
Subject: [PATCH 34/66] fix: text rise of a font must not raise text of other
 fonts

---
 minigopdf/cache_content_text.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index db38dec..f627acd 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -291,6 +291,9 @@ func createContent(f *SubsetFontObj, text string, fontSize int, rectangle *Rect,
 		runeIndex++
 	}
 	out.WriteString(">] TJ\n")
+	if f.funcTextriseOverride != nil { //other text must not be risen
+		out.WriteString("0.00 Ts\n")
+	}
 
 	cellWidthPdfUnit := float64(0)
 	cellHeightPdfUnit := float64(0)
-- 
2.43.0


From f98e9d8fda6dd9a4c86f012b8dabecfa22592dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:57 +0000
Subject: [PATCH 35/66] fix: document information of the template must be kept

---
 pdf_data.go  |  1 +
 pdf_parse.go |  6 ++++++
 pdft.go      | 11 +++++++++--
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index ee6bd81..1d23050 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -23,6 +23,7 @@ type PDFData struct {
 // TrailerData trailer
 type TrailerData struct {
 	rootObjID int
+	infoObjID int //0 if trailer has not /Info
 }
 
 // Len count
diff --git a/pdf_parse.go b/pdf_parse.go
index 24819f7..86e3228 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -155,6 +155,12 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 	}
 	pdf.trailer.rootObjID = rootID
 
+	if propInfo := props.getPropByKey("Info"); propInfo != nil {
+		if infoID, _, err := propInfo.asDictionary(); err == nil {
+			pdf.trailer.infoObjID = infoID
+		}
+	}
+
 	return nil
 }
 
diff --git a/pdft.go b/pdft.go
index 2bffeb7..dc86cee 100644
--- a/pdft.go
+++ b/pdft.go
@@ -764,7 +764,11 @@ func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
 		buff.WriteString(strings.TrimSpace(string(obj.data)))
 		buff.WriteString("\nendobj\n")
 	}
-	i.xref(xrefs, &buff, lastID, newpdf.trailer.rootObjID, encryptionObjID)
+	infoObjID := newpdf.trailer.infoObjID
+	if newpdf.getObjByID(infoObjID) == nil {
+		infoObjID = 0
+	}
+	i.xref(xrefs, &buff, lastID, newpdf.trailer.rootObjID, infoObjID, encryptionObjID)
 
 	return &buff, nil
 }
@@ -775,7 +779,7 @@ type xrefrow struct {
 	flag   string
 }
 
-func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID int, encryptionObjID int) {
+func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID int, infoID int, encryptionObjID int) {
 	xrefbyteoffset := buff.Len()
 
 	//start xref
@@ -807,6 +811,9 @@ func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID i
 	buff.WriteString("<<\n")
 	buff.WriteString(fmt.Sprintf("/Size %d\n", size+1))
 	buff.WriteString(fmt.Sprintf("/Root %d 0 R\n", rootID))
+	if infoID != 0 {
+		buff.WriteString(fmt.Sprintf("/Info %d 0 R\n", infoID))
+	}
 	if i.protection() != nil {
 		buff.WriteString(fmt.Sprintf("/Encrypt %d 0 R\n", encryptionObjID))
 		buff.WriteString("/ID [()()]\n")
-- 
2.43.0


From be4a3aae079bd54b01149abae18b0eff80ccc249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:09 +0000
Subject: [PATCH 36/66] fix: embed glyph outlines when two characters share a
 glyph

---
 minigopdf/pdf_dictionary_obj.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index dd8f3e2..78e2ace 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -257,7 +257,12 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 	//copy
 	isContainZero := false
 	glyphs := mapOfglyphs.AllVals()
+	added := make(map[uint]bool)
 	for _, v := range glyphs {
+		if added[v] { //many characters can have same glyph
+			continue
+		}
+		added[v] = true
 		glyphArray = append(glyphArray, int(v))
 		if v == 0 {
 			isContainZero = true
-- 
2.43.0


From 7e542aa84eeb6c0738d8989b45dc802a2f97549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:56 +0000
Subject: [PATCH 37/66] fix: page without content has no Contents entry

---
 minigopdf/page_obj.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minigopdf/page_obj.go b/minigopdf/page_obj.go
index f737f9b..ef53c8d 100644
--- a/minigopdf/page_obj.go
+++ b/minigopdf/page_obj.go
@@ -38,7 +38,9 @@ func (p *PageObj) build(objID int) error {
 	}
 	me.buffer.WriteString("    >>\n")*/
 	//me.buffer.WriteString("  >>\n")
-	p.buffer.WriteString("  /Contents " + p.Contents + "\n") //sample  Contents 8 0 R
+	if p.Contents != "" { //blank page has no content
+		p.buffer.WriteString("  /Contents " + p.Contents + "\n") //sample  Contents 8 0 R
+	}
 	if !p.pageOption.isEmpty() {
 		height := fmt.Sprintf("%0.2f", p.pageOption.PageSize.H)
 		width := fmt.Sprintf("%0.2f", p.pageOption.PageSize.W)
-- 
2.43.0


From da3422c1e0095a9af56ff802c96d7daa50b149c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:10 +0000
Subject: [PATCH 38/66] fix: characters of a text that fails must not stay in
 the subset of the font

---
 minigopdf/subset_font_obj.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 1bc87be..0718253 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -131,6 +131,16 @@ func (s *SubsetFontObj) SetTTFByReader(rd io.Reader) error {
 
 // AddChars add char to map CharacterToGlyphIndex
 func (s *SubsetFontObj) AddChars(txt string) error {
+	//all or nothing
+	for _, runeValue := range txt {
+		if s.CharacterToGlyphIndex.KeyExists(runeValue) {
+			continue
+		}
+		_, err := s.CharCodeToGlyphIndex(runeValue)
+		if err != nil {
+			return err
+		}
+	}
 	for _, runeValue := range txt {
 		if s.CharacterToGlyphIndex.KeyExists(runeValue) {
 			continue
-- 
2.43.0


From 037b9f917df75528c49295ef15ca247614cb62ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:01 +0000
Subject: [PATCH 39/66] fix: object number beyond the limit of PDF made Save
 write billions of xref lines

---
 pdf_data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdf_data.go b/pdf_data.go
index 1d23050..7a5591b 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -653,6 +653,9 @@ func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
 	return &out, nil
 }
 
+// maxObjID largest number of an object (ISO 32000-1 annex C), xref has a line for every number below largest one
+const maxObjID = 8388607
+
 func objIDFromStartObjLine(line string) (int, error) {
 	tokens := strings.Fields(line)
 	if len(tokens) < 3 {
@@ -662,5 +665,8 @@ func objIDFromStartObjLine(line string) (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if id > maxObjID {
+		return 0, errors.New("bad start obj")
+	}
 	return id, nil
 }
-- 
2.43.0


From 24a39ef5e11609bc948332a5edf9f381d9673983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:10 +0000
Subject: [PATCH 40/66] fix: document information with characters above U+FFFF
 was not UTF-16

---
 minigopdf/gopdf.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 38d57eb..f563b7e 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"strconv"
 	"time"
+	"unicode/utf16"
 )
 
 const subsetFont = "SubsetFont"
@@ -862,12 +863,8 @@ func (gp *GoPdf) getContent() *ContentObj {
 
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
-	for _, r := range str {
-		c := fmt.Sprintf("%X", r)
-		for len(c) < 4 {
-			c = "0" + c
-		}
-		buff.WriteString(c)
+	for _, c := range utf16.Encode([]rune(str)) {
+		buff.WriteString(fmt.Sprintf("%04X", c))
 	}
 	return buff.String()
 }
-- 
2.43.0


From ed8de7d15619e6dd00ad4a8fde009cc53a9c206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:12 +0000
Subject: [PATCH 41/66] fix: X was moved too far by text appended to text
 before it

---
 minigopdf/list_cache_content.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/list_cache_content.go b/minigopdf/list_cache_content.go
index fbe898e..5202009 100644
--- a/minigopdf/list_cache_content.go
+++ b/minigopdf/list_cache_content.go
@@ -53,7 +53,7 @@ func (l *listCacheContent) appendContentText(cache cacheContentText, text string
 	}
 
 	if cacheFont.cellOpt.Float == 0 || cacheFont.cellOpt.Float&Right == Right || cacheFont.contentType == ContentTypeText {
-		x += textWidthPdfUnit
+		x = cacheFont.x + textWidthPdfUnit //width is of whole content, include text before
 	}
 	if cacheFont.cellOpt.Float&Bottom == Bottom {
 		y += textHeightPdfUnit
-- 
2.43.0


From 0c1e39f8d85510f5d826fb17e700df433680f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:14 +0000
Subject: [PATCH 42/66] fix: cell after text without SetX was appended to the
 text, its rectangle and options were ignored

---
 minigopdf/cache_content_text.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index f627acd..e71c7b4 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -36,10 +36,13 @@ type cacheContentText struct {
 }
 
 func (c *cacheContentText) isSame(cache cacheContentText) bool {
-	if c.rectangle != nil {
+	if c.rectangle != nil || cache.rectangle != nil {
 		//if rectangle != nil we assumes this is not same content
 		return false
 	}
+	if c.contentType != cache.contentType || c.cellOpt != cache.cellOpt {
+		return false
+	}
 	if c.textColor.equal(cache.textColor) &&
 		c.grayFill == cache.grayFill &&
 		c.fontCountIndex == cache.fontCountIndex &&
-- 
2.43.0


From ebebde9515b1e5aeb66768cfa652b79807f79a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 43/66] fix: black text after text of other color was drawn in
 that color

---
 minigopdf/cache_content_text.go | 4 +++-
 minigopdf/content_obj.go        | 2 ++
 minigopdf/current.go            | 4 +++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index e71c7b4..1f4be35 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -17,6 +17,7 @@ type cacheContentText struct {
 	//---setup---
 	rectangle      *Rect
 	textColor      Rgb
+	isSetTextColor bool //color is set by user, black too
 	grayFill       float64
 	fontCountIndex int //Curr.Font_FontCount+1
 	fontSize       int
@@ -44,6 +45,7 @@ func (c *cacheContentText) isSame(cache cacheContentText) bool {
 		return false
 	}
 	if c.textColor.equal(cache.textColor) &&
+		c.isSetTextColor == cache.isSetTextColor &&
 		c.grayFill == cache.grayFill &&
 		c.fontCountIndex == cache.fontCountIndex &&
 		c.fontSize == cache.fontSize &&
@@ -132,7 +134,7 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 	stream.WriteString("BT\n")
 	stream.WriteString(fmt.Sprintf("%0.2f %0.2f TD\n", x, y))
 	stream.WriteString("/F" + strconv.Itoa(c.fontCountIndex) + " " + strconv.Itoa(c.fontSize) + " Tf\n")
-	if r != 0 || g != 0 || b != 0 { //sum of uint8 can overflow
+	if c.isSetTextColor || r != 0 || g != 0 || b != 0 { //sum of uint8 can overflow
 		rFloat := float64(r) * 0.00392156862745
 		gFloat := float64(g) * 0.00392156862745
 		bFloat := float64(b) * 0.00392156862745
diff --git a/minigopdf/content_obj.go b/minigopdf/content_obj.go
index fed7f6c..90c6606 100644
--- a/minigopdf/content_obj.go
+++ b/minigopdf/content_obj.go
@@ -104,6 +104,7 @@ func (c *ContentObj) AppendStreamText(text string) error {
 		fontSubset:     fontSubset,
 		rectangle:      nil,
 		textColor:      textColor,
+		isSetTextColor: c.getRoot().curr.isSetTxtColor,
 		grayFill:       grayFill,
 		fontCountIndex: fontCountIndex,
 		fontSize:       fontSize,
@@ -142,6 +143,7 @@ func (c *ContentObj) AppendStreamSubsetFont(rectangle *Rect, text string, cellOp
 		fontSubset:     fontSubset,
 		rectangle:      rectangle,
 		textColor:      textColor,
+		isSetTextColor: c.getRoot().curr.isSetTxtColor,
 		grayFill:       grayFill,
 		fontCountIndex: fontCountIndex,
 		fontSize:       fontSize,
diff --git a/minigopdf/current.go b/minigopdf/current.go
index fb9afda..8ee1aec 100644
--- a/minigopdf/current.go
+++ b/minigopdf/current.go
@@ -27,7 +27,8 @@ type Current struct {
 	ImgCaches []ImageCache
 
 	//text color
-	txtColor Rgb
+	txtColor      Rgb
+	isSetTxtColor bool
 
 	//text grayscale
 	grayFill float64
@@ -42,6 +43,7 @@ type Current struct {
 
 func (c *Current) setTextColor(rgb Rgb) {
 	c.txtColor = rgb
+	c.isSetTxtColor = true
 }
 
 func (c *Current) textColor() Rgb {
-- 
2.43.0


From 1c0c3a90b4cda089d60fbe4a5b15ae461e54bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:24 +0000
Subject: [PATCH 44/66] fix: transparency of PNG with more than one transparent
 color in palette was lost

---
 minigopdf/image_obj_parse.go | 47 ++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index 158edf2..5301e3b 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"image"
 	"image/color"
+	"image/png"
 	"io"
 	"io/ioutil"
 	"strings"
@@ -223,6 +224,7 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	var pal []byte
 	var trns []byte
+	palAlpha := false //colors of palette have alpha
 	var data []byte
 	for {
 		n, err := readInt(f)
@@ -265,6 +267,10 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				if pos >= 0 {
 					trns = []byte{byte(pos)}
 				}
+				if bytes.Count(t, []byte{255}) < len(t)-len(trns) { //not only one color that is fully transparent
+					trns = nil
+					palAlpha = true
+				}
 			}
 
 			_, err = f.Seek(int64(4), 1) //skip
@@ -393,11 +399,52 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	} else {
 		info.data = data
+		if palAlpha {
+			zipReader, err := zlib.NewReader(bytes.NewReader(data))
+			if err != nil {
+				return err
+			}
+			defer zipReader.Close()
+			size, err := io.Copy(ioutil.Discard, zipReader)
+			if err != nil {
+				return err
+			}
+			if int64((1+(w*int(bpc[0])+7)/8)*h) > size {
+				return errors.New("Incomplete data of PNG file")
+			}
+			alpha, err := palettedAlpha(f)
+			if err != nil {
+				return err
+			}
+			info.smask, err = compress(alpha)
+			if err != nil {
+				return err
+			}
+		}
 	}
 
 	return nil
 }
 
+// palettedAlpha alpha of pixels of PNG with palette, every line begins with type of filter (none)
+func palettedAlpha(f *bytes.Reader) ([]byte, error) {
+	f.Seek(0, 0)
+	img, err := png.Decode(f)
+	if err != nil {
+		return nil, err
+	}
+	var alpha []byte
+	rect := img.Bounds()
+	for y := rect.Min.Y; y < rect.Max.Y; y++ {
+		alpha = append(alpha, 0)
+		for x := rect.Min.X; x < rect.Max.X; x++ {
+			_, _, _, a := img.At(x, y).RGBA()
+			alpha = append(alpha, byte(a>>8))
+		}
+	}
+	return alpha, nil
+}
+
 func compress(data []byte) ([]byte, error) {
 	var results []byte
 	var buff bytes.Buffer
-- 
2.43.0


From a210fc6e19457a051274a11ba189b7aad020b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:25 +0000
Subject: [PATCH 45/66] fix: PNG with palette of white space bytes was refused

---
 minigopdf/image_obj_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index 5301e3b..6479d11 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -306,7 +306,7 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	//fmt.Printf("data= %x", md5.Sum(data))
 
-	if colspace == "Indexed" && strings.TrimSpace(string(pal)) == "" {
+	if colspace == "Indexed" && len(pal) == 0 {
 		return errors.New("Missing palette")
 	}
 
-- 
2.43.0


From 2a758cf86f8d474851a9be77b09bb3f05b9b3136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:12 +0000
Subject: [PATCH 46/66] fix: page with array of content streams could not be
 duplicated

---
 pdft.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pdft.go b/pdft.go
index dc86cee..3f8dfb1 100644
--- a/pdft.go
+++ b/pdft.go
@@ -147,17 +147,19 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if pageContent == nil {
 		return ErrNoContentsProperty
 	}
-	contentID, _, err := pageContent.asDictionary()
-	if err != nil {
-		return err
-	}
-	contentObj := i.pdf.getObjByID(contentID)
-	if contentObj == nil {
-		return ErrorObjectIDNotFound
+	if pageContent.valType() != array { //content streams in array are shared, they are copied when they must be changed
+		contentID, _, err := pageContent.asDictionary()
+		if err != nil {
+			return err
+		}
+		contentObj := i.pdf.getObjByID(contentID)
+		if contentObj == nil {
+			return ErrorObjectIDNotFound
+		}
+		contentID = i.pdf.putNewObject(*contentObj) //copy object value
+		pageContent.setAsDictionary(contentID, 0)
+		pageObj.setProperties(props)
 	}
-	contentID = i.pdf.putNewObject(*contentObj) //copy object value
-	pageContent.setAsDictionary(contentID, 0)
-	pageObj.setProperties(props)
 
 	pageID := i.pdf.putNewObject(pageObj)
 
-- 
2.43.0


From a92d72c8359c49ebef938229fb36bf36df9c6dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:29 +0000
Subject: [PATCH 47/66] fix: strings in dictionaries of pages were changed or
 misread

---
 pdf_data.go              | 18 ++++++++++++-
 pdf_obj_data.go          |  2 +-
 pdf_obj_property_data.go | 58 +++++++++++++++++++++++++++++++++-------
 3 files changed, 66 insertions(+), 12 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 7a5591b..a39343f 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -618,9 +618,25 @@ func isZipStream(data *[]byte) (bool, error) {
 
 var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 
+// streamIndex index of keyword stream, -1 if object is not a stream
+func streamIndex(data []byte) int {
+	i := 0
+	for i < len(data) {
+		if data[i] == '(' { //the word can be in a string
+			i = endOfLiteralString(data, i)
+			continue
+		}
+		if bytes.HasPrefix(data[i:], extractStreamBytes) && bytes.HasSuffix(bytes.TrimSpace(data[:i]), []byte(">>")) {
+			return i
+		}
+		i++
+	}
+	return -1
+}
+
 func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
 
-	index := bytes.Index(*b, extractStreamBytes)
+	index := streamIndex(*b)
 	if index == -1 {
 		return nil, errors.New("stream not found")
 	}
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 8f4100a..b23bd4b 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -77,7 +77,7 @@ func (p *PDFObjData) encrypt(pdf *PDFData, protection *gopdf.PDFProtection) erro
 
 	stream := []byte("stream")
 	endstream := []byte("endstream")
-	start := bytes.Index(p.data, stream)
+	start := streamIndex(p.data)
 	if start == -1 {
 		data, err := encryptStrings(p.data, protection.Objectkey(p.objID))
 		if err != nil {
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index 04cc8cd..f55b109 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -81,7 +81,7 @@ func readProperty(rawObj *[]byte, key string) (*PDFObjPropertyData, error) {
 func readProperties(rawObj *[]byte, outProps *PDFObjPropertiesData) error {
 
 	tmp0 := *rawObj
-	index := bytes.Index(*rawObj, extractStreamBytes)
+	index := streamIndex(*rawObj)
 	if index != -1 { //เป็น stream
 		tmp0 = tmp0[0:index]
 	}
@@ -100,20 +100,51 @@ func readProperties(rawObj *[]byte, outProps *PDFObjPropertiesData) error {
 	var regexpClose = regexp.MustCompile("[\\r\\n\\t ]+\\>\\>")
 	var regexpLine = regexp.MustCompile("[\\r\\n\\t ]+")
 
-	tmp := strings.TrimSpace(string((*rawObj)[startObjInx+len("<<") : endObjInx]))
-	tmp = regexpLine.ReplaceAllString(tmp, " ")
-	tmp = regexpSlash.ReplaceAllString(tmp, "/")
-	tmp = regexpOpenB.ReplaceAllString(tmp, "[")
-	tmp = regexpCloseB.ReplaceAllString(tmp, "]")
-	tmp = regexpOpen.ReplaceAllString(tmp, "<<")
-	tmp = regexpClose.ReplaceAllString(tmp, ">>")
+	raw := bytes.TrimSpace((*rawObj)[startObjInx+len("<<") : endObjInx])
+	var buff bytes.Buffer
+	for len(raw) > 0 { //white space in strings must not be changed
+		startStr := bytes.IndexByte(raw, '(')
+		if startStr == -1 {
+			startStr = len(raw)
+		}
+		endStr := endOfLiteralString(raw, startStr)
+		tmp := regexpLine.ReplaceAllString(string(raw[:startStr]), " ")
+		tmp = regexpSlash.ReplaceAllString(tmp, "/")
+		tmp = regexpOpenB.ReplaceAllString(tmp, "[")
+		tmp = regexpCloseB.ReplaceAllString(tmp, "]")
+		tmp = regexpOpen.ReplaceAllString(tmp, "<<")
+		tmp = regexpClose.ReplaceAllString(tmp, ">>")
+		buff.WriteString(tmp)
+		buff.Write(raw[startStr:endStr])
+		raw = raw[endStr:]
+	}
 
 	var pp parseProps
 
-	pp.set(tmp, outProps)
+	pp.set(buff.String(), outProps)
 	return nil
 }
 
+// endOfLiteralString index after string such as (text) that start at i
+func endOfLiteralString(data []byte, i int) int {
+	depth := 0
+	for i < len(data) {
+		c := data[i]
+		i++
+		if c == '\\' && i < len(data) {
+			i++
+		} else if c == '(' {
+			depth++
+		} else if c == ')' {
+			depth--
+			if depth == 0 {
+				break
+			}
+		}
+	}
+	return i
+}
+
 type parseProps struct {
 	str        string
 	max        int
@@ -141,7 +172,7 @@ func (p *parseProps) loop(i int, status string) (int, string) {
 		} else if status == "key" {
 			if r == " " {
 				i, status = p.loop(i+1, "val")
-			} else if r == "<" || r == "[" {
+			} else if r == "<" || r == "[" || r == "(" {
 				i, status = p.loop(i, "val")
 			} else if r == "/" {
 				return i - 1, ""
@@ -150,6 +181,13 @@ func (p *parseProps) loop(i int, status string) (int, string) {
 			}
 		} else if status == "val" {
 
+			if r == "(" {
+				end := i + endOfLiteralString([]byte(p.str[i:]), 0)
+				p.props.at(p.propsIndex).rawVal += p.str[i:end]
+				i = end
+				continue
+			}
+
 			if r == "<" {
 				count01++
 			} else if r == "[" {
-- 
2.43.0


From 249b5b0607a288761625e01b942896ed650a315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:00 +0000
Subject: [PATCH 48/66] fix: strings of CID fonts of protected documents of
 GoPdf were not encrypted

---
 minigopdf/cid_font_obj.go | 22 ++++++++++++++++++++--
 minigopdf/gopdf.go        |  1 +
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/minigopdf/cid_font_obj.go b/minigopdf/cid_font_obj.go
index 310b2d2..8c2f095 100644
--- a/minigopdf/cid_font_obj.go
+++ b/minigopdf/cid_font_obj.go
@@ -9,19 +9,37 @@ type CIDFontObj struct {
 	buffer                    bytes.Buffer
 	PtrToSubsetFontObj        *SubsetFontObj
 	indexObjSubfontDescriptor int
+	pdfProtection             *PDFProtection
 }
 
 func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
 }
 
+func (ci *CIDFontObj) setProtection(p *PDFProtection) {
+	ci.pdfProtection = p
+}
+
+func (ci *CIDFontObj) protection() *PDFProtection {
+	return ci.pdfProtection
+}
+
 func (ci *CIDFontObj) build(objID int) error {
 
 	ci.buffer.WriteString("<<\n")
 	ci.buffer.WriteString(fmt.Sprintf("/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily())))
 	ci.buffer.WriteString("/CIDSystemInfo\n")
 	ci.buffer.WriteString("<<\n")
-	ci.buffer.WriteString("  /Ordering (Identity)\n")
-	ci.buffer.WriteString("  /Registry (Adobe)\n")
+	for _, entry := range [][]string{{"Ordering", "Identity"}, {"Registry", "Adobe"}} {
+		if ci.protection() != nil {
+			tmp, err := rc4Cip(ci.protection().objectkey(objID), []byte(entry[1]))
+			if err != nil {
+				return err
+			}
+			ci.buffer.WriteString(fmt.Sprintf("  /%s <%X>\n", entry[0], tmp))
+		} else {
+			ci.buffer.WriteString(fmt.Sprintf("  /%s (%s)\n", entry[0], entry[1]))
+		}
+	}
 	ci.buffer.WriteString("  /Supplement 0\n")
 	ci.buffer.WriteString(">>\n")
 	ci.buffer.WriteString(fmt.Sprintf("/FontDescriptor %d 0 R\n", ci.indexObjSubfontDescriptor+1)) //TODO fix
diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index f563b7e..c85fb28 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -547,6 +547,7 @@ func (gp *GoPdf) AddTTFFontByReaderWithOption(family string, rd io.Reader, optio
 	cidfont.init(func() *GoPdf {
 		return gp
 	})
+	cidfont.setProtection(gp.protection())
 	cidfont.SetPtrToSubsetFontObj(subsetFont)
 	cidfont.SetIndexObjSubfontDescriptor(subfontdescindex)
 	cidindex := gp.addObj(cidfont)
-- 
2.43.0


From f477a372a21dd3407be382f0f1092eb3c4f2438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:52 +0000
Subject: [PATCH 49/66] fix: errors of WritePdf were lost

---
 minigopdf/gopdf.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index c85fb28..197b3b1 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -384,8 +384,12 @@ func (gp *GoPdf) SetFont(family string, style string, size int) error {
 }
 
 // WritePdf : wirte pdf file
-func (gp *GoPdf) WritePdf(pdfPath string) {
-	ioutil.WriteFile(pdfPath, gp.GetBytesPdf(), 0644)
+func (gp *GoPdf) WritePdf(pdfPath string) error {
+	b, err := gp.GetBytesPdfReturnErr()
+	if err != nil {
+		return err
+	}
+	return ioutil.WriteFile(pdfPath, b, 0644)
 }
 
 func (gp *GoPdf) Read(p []byte) (int, error) {
-- 
2.43.0


From c9adea42e3dc0b7de891dbdfa5a8d1e54de15cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:11 +0000
Subject: [PATCH 50/66] fix: new content was drawn with graphics state that
 content of page left

---
 pdf_data.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index a39343f..82b5a97 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -458,11 +458,13 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 				return errors.New("not support /Contents type not dictionary yet")
 			}*/
 			var contentsObjID int
+			begin := ""
 			if propContentsValType == dictionary {
 				contentsObjID, _, err = readObjIDFromDictionary(propContentsVal)
 				if err != nil {
 					return err
 				}
+				begin = "q\n"
 			} else if propContentsValType == array {
 				contentsObjIDs, _, err := readObjIDFromDictionaryArr(propContentsVal)
 				if err != nil || len(contentsObjIDs) <= 0 {
@@ -492,9 +494,10 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			}
 			//fmt.Printf("stm=%s\n\n", stm.String())
 
-			stm.WriteString("\n")
+			//new content must not be drawn with graphics state that content of page left
+			stm.WriteString("\nQ\n")
 			pageBuffs[pageIndex+1].WriteTo(stm)
-			objMustReplaces[contentsObjID] = fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", stm.Len(), stm.String())
+			objMustReplaces[contentsObjID] = fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%s%sendstream", len(begin)+stm.Len(), begin, stm.String())
 
 		}
 	}
@@ -541,20 +544,27 @@ func (p *PDFData) ownContents(pageObjID int, contentsUses map[int]int) error {
 		return nil
 	}
 	last := len(objIDs) - 1
+	prop := props.getPropByKey("Contents")
+	isArray := prop.valType() == array
+	if isArray {
+		var beginObj PDFObjData //save graphics state before content of page
+		beginObj.data = []byte("<<\n/Length 2\n>>\nstream\nq\nendstream")
+		objIDs = append([]int{p.putNewObject(beginObj)}, objIDs...)
+		last++
+	}
 	if contentsUses[objIDs[last]] > 1 {
 		contentsObj := p.getObjByID(objIDs[last])
 		if contentsObj == nil {
 			return ErrorObjectIDNotFound
 		}
 		objIDs[last] = p.putNewObject(*contentsObj)
-		prop := props.getPropByKey("Contents")
-		if prop.valType() == array {
-			prop.setAsDictionaryArr(objIDs, nil)
-		} else {
-			prop.setAsDictionary(objIDs[last], 0)
-		}
-		p.getObjByID(pageObjID).setProperties(props)
 	}
+	if isArray {
+		prop.setAsDictionaryArr(objIDs, nil)
+	} else {
+		prop.setAsDictionary(objIDs[last], 0)
+	}
+	p.getObjByID(pageObjID).setProperties(props)
 	return nil
 }
 
-- 
2.43.0


From 58d64c24c4b4de40c81b1f451f4fed4501d8a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:33 +0000
Subject: [PATCH 51/66] fix: damaged font caused panic

---
 minigopdf/fontmaker/core/ttfparser.go |  9 ++++++
 minigopdf/pdf_dictionary_obj.go       | 41 ++++++++++++++++++++-------
 minigopdf/subset_font_obj.go          |  4 +--
 3 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index c27d694..4f57845 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -19,6 +19,8 @@ var ERROR_NO_UNICODE_ENCODING_FOUND = errors.New("No Unicode encoding found")
 var ERROR_UNEXPECTED_SUBTABLE_FORMAT = errors.New("Unexpected subtable format")
 var ERROR_INCORRECT_MAGIC_NUMBER = errors.New("Incorrect magic number")
 var ERROR_POSTSCRIPT_NAME_NOT_FOUND = errors.New("PostScript name not found")
+var ERROR_INCORRECT_UNITS_PER_EM = errors.New("Incorrect unitsPerEm")
+var ERROR_WIDTHS_NOT_FOUND = errors.New("Widths not found")
 
 // TTFParser true type font parser
 type TTFParser struct {
@@ -806,6 +808,9 @@ func (t *TTFParser) ParseHmtx(fd *bytes.Reader) error {
 		t.widths = append(t.widths, advanceWidth)
 		i++
 	}
+	if len(t.widths) == 0 {
+		return ERROR_WIDTHS_NOT_FOUND
+	}
 	if t.numberOfHMetrics < t.numGlyphs {
 		var err error
 		lastWidth := t.widths[t.numberOfHMetrics-1]
@@ -866,6 +871,10 @@ func (t *TTFParser) ParseHead(fd *bytes.Reader) error {
 		return err
 	}
 
+	if t.unitsPerEm == 0 {
+		return ERROR_INCORRECT_UNITS_PER_EM
+	}
+
 	err = t.Skip(fd, 2*8) // created, modified
 	if err != nil {
 		return err
diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index 78e2ace..ecf958f 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -22,6 +22,9 @@ var EntrySelectors = []int{
 // ErrNotSupportShortIndexYet not suport none short index yet
 var ErrNotSupportShortIndexYet = errors.New("not suport none short index yet")
 
+// ErrGlyphOutOfRange data of glyph is not in font
+var ErrGlyphOutOfRange = errors.New("glyph out of range")
+
 // PdfDictionaryObj pdf dictionary object
 type PdfDictionaryObj struct {
 	buffer             bytes.Buffer
@@ -96,7 +99,10 @@ func (p *PdfDictionaryObj) makeGlyfAndLocaTable() ([]byte, []int, error) {
 
 	numGlyphs := int(ttfp.NumGlyphs())
 
-	glyphArray := p.completeGlyphClosure(p.PtrToSubsetFontObj.CharacterToGlyphIndex)
+	glyphArray, err := p.completeGlyphClosure(p.PtrToSubsetFontObj.CharacterToGlyphIndex)
+	if err != nil {
+		return nil, nil, err
+	}
 	glyphCount := len(glyphArray)
 	sort.Ints(glyphArray)
 
@@ -252,7 +258,7 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 	return buff.Bytes(), nil
 }
 
-func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGlyphIndex) []int {
+func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGlyphIndex) ([]int, error) {
 	var glyphArray []int
 	//copy
 	isContainZero := false
@@ -274,31 +280,44 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 
 	i := 0
 	for i < len(glyphArray) { //component of composite glyph can be composite glyph too
-		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
+		err := p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
+		if err != nil {
+			return nil, err
+		}
 		i++
 	}
-	return glyphArray
+	return glyphArray, nil
 }
 
 // AddCompositeGlyphs add composite glyph
 // composite glyph is a Unicode entity that can be defined as a sequence of one or more other characters.
-func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
+func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) error {
+	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
+	fontData := ttfp.FontData()
+	if glyph < 0 || glyph+1 >= len(ttfp.LocaTable) {
+		return ErrGlyphOutOfRange
+	}
 	start := p.GetOffset(int(glyph))
-	if start == p.GetOffset(int(glyph)+1) {
-		return
+	next := p.GetOffset(int(glyph) + 1)
+	if start == next {
+		return nil
+	}
+	if start > next || start+2 > len(fontData) || next > len(fontData) {
+		return ErrGlyphOutOfRange
 	}
 
 	offset := start
-	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
-	fontData := ttfp.FontData()
 	numContours, step := ReadShortFromByte(fontData, offset)
 	offset += step
 	if numContours >= 0 {
-		return
+		return nil
 	}
 
 	offset += 8
 	for {
+		if offset+4 > len(fontData) {
+			return ErrGlyphOutOfRange
+		}
 		flags, step1 := ReadUShortFromByte(fontData, offset)
 		offset += step1
 		cGlyph, step2 := ReadUShortFromByte(fontData, offset)
@@ -316,7 +335,7 @@ func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 		}
 
 		if (flags & MORE_COMPONENTS) == 0 {
-			return
+			return nil
 		}
 		offsetAppend := 4
 		if (flags & ARG_1_AND_2_ARE_WORDS) == 0 {
diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 0718253..4f50cd1 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -216,7 +216,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 		seg++
 	}
 	//fmt.Printf("\ncccc--->%#v\n", me.ttfp.Chars())
-	if value < s.ttfp.StartCount[seg] {
+	if seg >= segCount || value < s.ttfp.StartCount[seg] {
 		return 0, nil
 	}
 
@@ -227,7 +227,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 	//fmt.Printf("IdRangeOffset=%d\n", me.ttfp.IdRangeOffset[seg])
 	idx := s.ttfp.IdRangeOffset[seg]/2 + (value - s.ttfp.StartCount[seg]) - (segCount - seg)
 
-	if s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
+	if idx >= uint(len(s.ttfp.GlyphIdArray)) || s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
 		return 0, nil
 	}
 
-- 
2.43.0


From 21893c1fd4d958dc5420e3f122a275cfed80b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:37 +0000
Subject: [PATCH 52/66] fix: text without font caused panic in GoPdf

---
 minigopdf/gopdf.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 197b3b1..e081528 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -454,10 +454,21 @@ func (gp *GoPdf) GetBytesPdf() []byte {
 	return b
 }
 
+// ErrFontNotSet font must be set before text is written
+var ErrFontNotSet = errors.New("font is not set")
+
+// addChars add characters to current font
+func (gp *GoPdf) addChars(text string) error {
+	if gp.curr.Font_ISubset == nil {
+		return ErrFontNotSet
+	}
+	return gp.curr.Font_ISubset.AddChars(text)
+}
+
 // Text write text start at current x,y ( current y is the baseline of text )
 func (gp *GoPdf) Text(text string) error {
 
-	err := gp.curr.Font_ISubset.AddChars(text)
+	err := gp.addChars(text)
 	if err != nil {
 		return err
 	}
@@ -472,7 +483,7 @@ func (gp *GoPdf) Text(text string) error {
 
 // CellWithOption create cell of text ( use current x,y is upper-left corner of cell)
 func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) error {
-	err := gp.curr.Font_ISubset.AddChars(text)
+	err := gp.addChars(text)
 	if err != nil {
 		return err
 	}
@@ -493,7 +504,7 @@ func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
 		Float:  Right,
 	}
 
-	err := gp.curr.Font_ISubset.AddChars(text)
+	err := gp.addChars(text)
 	if err != nil {
 		return err
 	}
@@ -633,7 +644,7 @@ func (gp *GoPdf) SetFillColor(r uint8, g uint8, b uint8) {
 // MeasureTextWidth : measure Width of text (use current font)
 func (gp *GoPdf) MeasureTextWidth(text string) (float64, error) {
 
-	err := gp.curr.Font_ISubset.AddChars(text) //AddChars for create CharacterToGlyphIndex
+	err := gp.addChars(text) //AddChars for create CharacterToGlyphIndex
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 337908be2de7eaddc9940e5a4921d6b5f1efc9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:41 +0000
Subject: [PATCH 53/66] fix: image drawn again without rect had size of its
 first use

---
 minigopdf/gopdf.go     | 17 ++++++++---------
 minigopdf/image_obj.go | 16 ++++++++++------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index e081528..be258e4 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -214,14 +214,13 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			return err
 		}
 
-		var imgRect *Rect
-		if rect == nil {
-			imgRect, err = imgobj.getRect()
-			if err != nil {
-				return err
-			}
-		} else {
-			imgRect = rect
+		naturalRect, err := imgobj.getRect()
+		if err != nil {
+			return err
+		}
+		imgRect := rect
+		if imgRect == nil {
+			imgRect = naturalRect
 		}
 
 		err = imgobj.parse()
@@ -238,7 +237,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			var imgcache ImageCache
 			imgcache.Index = gp.curr.CountOfImg
 			imgcache.Path = img.ID()
-			imgcache.Rect = imgRect
+			imgcache.Rect = naturalRect
 			gp.curr.ImgCaches = append(gp.curr.ImgCaches, imgcache)
 			gp.curr.CountOfImg++
 		}
diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index 7873b7e..aaaac7a 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -2,6 +2,7 @@ package gopdf
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"image"
 	_ "image/jpeg"
@@ -153,26 +154,29 @@ func (i *ImageObj) GetRect() *Rect {
 func (i *ImageObj) getRect() (*Rect, error) {
 
 	i.rawImgReader.Seek(0, 0)
-	m, _, err := image.Decode(i.rawImgReader)
+	imgConfig, _, err := image.DecodeConfig(i.rawImgReader)
 	if err != nil {
 		return nil, err
 	}
 
-	imageRect := m.Bounds()
+	if imgConfig.Width <= 0 || imgConfig.Height <= 0 {
+		return nil, errors.New("image is empty")
+	}
+
 	k := 1
 	w := -128 //init
 	h := -128 //init
 	if w < 0 {
-		w = -imageRect.Dx() * 72 / w / k
+		w = -imgConfig.Width * 72 / w / k
 	}
 	if h < 0 {
-		h = -imageRect.Dy() * 72 / h / k
+		h = -imgConfig.Height * 72 / h / k
 	}
 	if w == 0 {
-		w = h * imageRect.Dx() / imageRect.Dy()
+		w = h * imgConfig.Width / imgConfig.Height
 	}
 	if h == 0 {
-		h = w * imageRect.Dy() / imageRect.Dx()
+		h = w * imgConfig.Height / imgConfig.Width
 	}
 
 	var rect = new(Rect)
-- 
2.43.0


From 153a77c518cfadaa1242effc88a589a20bbe2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:07 +0000
Subject: [PATCH 54/66] fix: open that fails must not close the document that
 is open

---
 pdft.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pdft.go b/pdft.go
index 3f8dfb1..b24c890 100644
--- a/pdft.go
+++ b/pdft.go
@@ -100,20 +100,19 @@ func (i *PDFt) Open(filepath string) error {
 
 // OpenFrom open pdf from io.Reader
 func (i *PDFt) OpenFrom(r io.Reader) error {
-	//init
-	i.pdf = PDFData{}
-	i.fontDatas = make(map[string]*PDFFontData)
-	i.curr = current{lineWidth: 1.0}
-	i.pdfImgs = nil
-	i.pdfImgsMd5Map = make(map[string]*PDFImageData)
-	i.contenters = nil
 	//open
 	var pdf PDFData
 	err := PDFParse(r, &pdf)
-	if err != nil {
+	if err != nil { //what was open before is still open
 		return err
 	}
+	//init
 	i.pdf = pdf
+	i.fontDatas = make(map[string]*PDFFontData)
+	i.curr = current{lineWidth: 1.0}
+	i.pdfImgs = nil
+	i.pdfImgsMd5Map = make(map[string]*PDFImageData)
+	i.contenters = nil
 
 	i.ShowCellBorder(false)
 
-- 
2.43.0


From bb5e298c1abc2a0ae934eaf0e73e5f5a2a63f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:07 +0000
Subject: [PATCH 55/66] fix: offsets in xref are of the object and of the
 table, not of the empty line before

---
 pdft.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdft.go b/pdft.go
index b24c890..69afe7a 100644
--- a/pdft.go
+++ b/pdft.go
@@ -760,8 +760,9 @@ func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
 	for _, obj := range newpdf.objs {
 		//xrefs = append(xrefs, buff.Len())
 		//fmt.Printf("%d\n", obj.objID)
+		buff.WriteString("\n") //offset is of object, not of empty line before it
 		xrefs[obj.objID] = buff.Len()
-		buff.WriteString(fmt.Sprintf("\n%d 0 obj\n", obj.objID))
+		buff.WriteString(fmt.Sprintf("%d 0 obj\n", obj.objID))
 		buff.WriteString(strings.TrimSpace(string(obj.data)))
 		buff.WriteString("\nendobj\n")
 	}
@@ -781,10 +782,11 @@ type xrefrow struct {
 }
 
 func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID int, infoID int, encryptionObjID int) {
+	buff.WriteString("\n")
 	xrefbyteoffset := buff.Len()
 
 	//start xref
-	buff.WriteString("\nxref\n")
+	buff.WriteString("xref\n")
 	buff.WriteString(fmt.Sprintf("0 %d\r\n", size+1))
 	var xrefrows []xrefrow
 	xrefrows = append(xrefrows, xrefrow{offset: 0, flag: "f", gen: "65535"})
-- 
2.43.0


From e637da2ca8ed3883205b3ccc6060a4c51f724534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:07 +0000
Subject: [PATCH 56/66] fix: template that was updated must be read with the
 newest version of its objects and trailer

---
 pdf_parse.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/pdf_parse.go b/pdf_parse.go
index 86e3228..aa7a754 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -1,6 +1,7 @@
 package pdft
 
 import (
+	"bytes"
 	"errors"
 	"io"
 	"io/ioutil"
@@ -124,12 +125,18 @@ func setPagesObj(pdf *PDFData) error {
 
 func parseTrailer(raw *[]byte, pdf *PDFData) error {
 
-	indexTrailers := regexpTrailer.FindAllIndex(*raw, 1)
+	start := lastXrefOffset(*raw)
+	if regexpTrailer.FindIndex((*raw)[start:]) == nil {
+		start = 0
+	}
+	tail := (*raw)[start:]
+
+	indexTrailers := regexpTrailer.FindAllIndex(tail, 1)
 	if len(indexTrailers) <= 0 {
 		return errors.New("trailer not found")
 	}
 
-	indexStartxrefs := regexpStartxref.FindAllIndex(*raw, 1)
+	indexStartxrefs := regexpStartxref.FindAllIndex(tail, 1)
 	if len(indexStartxrefs) <= 0 {
 		return errors.New("startxref not found")
 	}
@@ -137,7 +144,7 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 	if indexTrailers[0][1] > indexStartxrefs[0][0] {
 		return errors.New("trailer must be before startxref")
 	}
-	tmp := (*raw)[indexTrailers[0][1]:indexStartxrefs[0][0]]
+	tmp := tail[indexTrailers[0][1]:indexStartxrefs[0][0]]
 	var props PDFObjPropertiesData
 	err := readProperties(&tmp, &props)
 	if err != nil {
@@ -164,6 +171,23 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 	return nil
 }
 
+// lastXrefOffset offset of newest xref (pdf can be updated many times), 0 if it is not known
+func lastXrefOffset(raw []byte) int {
+	index := bytes.LastIndex(raw, []byte("startxref"))
+	if index == -1 {
+		return 0
+	}
+	fields := bytes.Fields(raw[index+len("startxref"):])
+	if len(fields) == 0 {
+		return 0
+	}
+	offset, err := strconv.Atoi(string(fields[0]))
+	if err != nil || offset < 0 || offset > len(raw) {
+		return 0
+	}
+	return offset
+}
+
 func parseXref(raw *[]byte, pdf *PDFData) error {
 
 	indexXrefs := regexpXref.FindAllIndex(*raw, 1)
@@ -188,6 +212,7 @@ func parseXref(raw *[]byte, pdf *PDFData) error {
 }
 
 func parseObjOnlyKeywordN(raw *[]byte, pdf *PDFData) error {
+	offsets := make(map[int]int)
 	for _, xref := range pdf.xrefs {
 		//fmt.Printf("%d\n", i)
 		if xref.Keyword == "n" {
@@ -196,6 +221,15 @@ func parseObjOnlyKeywordN(raw *[]byte, pdf *PDFData) error {
 			if err != nil {
 				return err
 			}
+			offset, have := offsets[pdfobj.objID]
+			if have && offset >= xref.N10Digit {
+				continue
+			}
+			offsets[pdfobj.objID] = xref.N10Digit
+			if have { //pdf was updated, newest version of object is the last in file
+				*pdf.getObjByID(pdfobj.objID) = pdfobj
+				continue
+			}
 			pdf.put(pdfobj)
 		}
 	}
-- 
2.43.0


From 44d9595d37c9ab258a2d8bf1070f461828da61da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:51 +0000
Subject: [PATCH 57/66] fix: encrypted pdf can not be read as template, open
 must return error

---
 pdf_parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf_parse.go b/pdf_parse.go
index aa7a754..5896c6f 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -151,6 +151,10 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 		return err
 	}
 
+	if props.getPropByKey("Encrypt") != nil {
+		return errors.New("not support encrypted pdf")
+	}
+
 	propRoot := props.getPropByKey("Root")
 	if propRoot == nil {
 		return errors.New("/Root not found")
-- 
2.43.0


From 7d1f53d649211e3b85e9cd55018bafb4d8a0ff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:51 +0000
Subject: [PATCH 58/66] fix: map file that is wrong or can not be read must be
 error

---
 minigopdf/fontmaker/core/fontmaker.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index 549e3a5..d55cc0e 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -16,6 +16,9 @@ import (
 // ErrFontLicenseDoesNotAllowEmbedding Font license does not allow embedding
 var ErrFontLicenseDoesNotAllowEmbedding = errors.New("Font license does not allow embedding")
 
+// ErrIncorrectMapFile Incorrect map file
+var ErrIncorrectMapFile = errors.New("Incorrect map file")
+
 // FontMaker font maker
 type FontMaker struct {
 	results []string
@@ -468,13 +471,22 @@ func (f *FontMaker) LoadMap(encodingpath string) ([]FontMap, error) {
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		line := strings.TrimSpace(scanner.Text())
-		e := strings.Split(line, " ")
+		if line == "" {
+			continue
+		}
+		e := strings.Fields(line)
+		if len(e) < 3 || len(e[0]) < 2 || len(e[1]) < 3 {
+			return nil, ErrIncorrectMapFile
+		}
 		strC := (e[0])[1:]
 		strUv := (e[1])[2:]
 		c, err := strconv.ParseInt(strC, 16, 0)
 		if err != nil {
 			return nil, err
 		}
+		if c < 0 || c >= int64(max) {
+			return nil, ErrIncorrectMapFile
+		}
 		uv, err := strconv.ParseInt(strUv, 16, 0)
 		if err != nil {
 			return nil, err
@@ -484,6 +496,9 @@ func (f *FontMaker) LoadMap(encodingpath string) ([]FontMap, error) {
 		fontmaps[c].Name = name
 		fontmaps[c].Uv = int(uv)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 
 	return fontmaps, nil
 }
-- 
2.43.0


From 1b4bd68d76e591d28742b75203b838a337877a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:51 +0000
Subject: [PATCH 59/66] fix: fontmaker must not panic when cmap of font has
 glyph that font does not have

---
 minigopdf/fontmaker/core/fontmaker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index d55cc0e..f1aa3b0 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -419,7 +419,7 @@ func (f *FontMaker) GetInfoFromTrueType(fontpath string, fontmaps []FontMap) (Tt
 	for c < max {
 		if fontmaps[c].Name != ".notdef" {
 			uv := fontmaps[c].Uv
-			if val, ok := parser.chars[int(uv)]; ok {
+			if val, ok := parser.chars[int(uv)]; ok && val < uint(len(parser.widths)) {
 				w := parser.widths[val]
 				widths[c] = f.MultiplyAndRoundWithUInt64(k, w)
 			} else {
-- 
2.43.0


From 377477e07a65a61bad94b7c012e3a21e59cb1a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:51 +0000
Subject: [PATCH 60/66] fix: differences that begin at code 1 must have the
 code

---
 minigopdf/fontmaker/core/fontmaker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index f1aa3b0..b88984c 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -312,7 +312,7 @@ func (f *FontMaker) MakeFontEncoding(mappath string, fontmaps []FontMap) (string
 		return "", err
 	}
 	s := ""
-	last := 0
+	last := -2
 	for c := 0; c <= 255; c++ {
 		if fontmaps[c].Name != ref[c].Name {
 			if c != last+1 {
-- 
2.43.0


From 60831f0b9de649f2727e8a32328f7c9e434a95b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:51 +0000
Subject: [PATCH 61/66] fix: original size in definition file is size of the
 font

---
 minigopdf/fontmaker/core/fontmaker.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index b88984c..89ae9a1 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -168,6 +168,11 @@ func (f *FontMaker) MakeDefinitionFile(gofontname string, mappath string, export
 
 	str += "}\n"
 
+	originalSize, err := info.GetInt64("OriginalSize")
+	if err != nil {
+		return "", err
+	}
+
 	str += "func (me * " + gofontname + ")GetType() string{\n"
 	str += "\treturn me.fonttype\n"
 	str += "}\n"
@@ -194,7 +199,7 @@ func (f *FontMaker) MakeDefinitionFile(gofontname string, mappath string, export
 	str += "}\n"
 
 	str += "func (me * " + gofontname + ") GetOriginalsize() int{\n"
-	str += "\treturn 98764\n"
+	str += fmt.Sprintf("\treturn %d\n", originalSize)
 	str += "}\n"
 
 	str += "func (me * " + gofontname + ")  SetFamily(family string){\n"
@@ -385,7 +390,7 @@ func (f *FontMaker) GetInfoFromTrueType(fontpath string, fontmaps []FontMap) (Tt
 	if err != nil {
 		return nil, err
 	}
-	info.PushInt64("OriginalSize", size)
+	info.PushInt("OriginalSize", int(size))
 
 	k := float64(1000.0 / float64(parser.unitsPerEm))
 	info.PushString("FontName", parser.postScriptName)
-- 
2.43.0


From 698085704ee389307621322a33c0baacfbd51da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:11 +0000
Subject: [PATCH 62/66] fix: PostScript name of font keeps its zeros and loses
 characters that name of pdf can not have

---
 minigopdf/fontmaker/core/ttfparser.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index 4f57845..1b60b2f 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -11,8 +11,6 @@ import (
 	"io/ioutil"
 	"os"
 	"regexp"
-	"strconv"
-	"strings"
 )
 
 var ERROR_NO_UNICODE_ENCODING_FOUND = errors.New("No Unicode encoding found")
@@ -575,8 +573,7 @@ func (t *TTFParser) ParseName(fd *bytes.Reader) error {
 				}
 			}
 			s := fmt.Sprintf("%s", string(tmpStmp)) //strings(stmp)
-			s = strings.Replace(s, strconv.Itoa(0), "", -1)
-			s, err = t.PregReplace("|[ \\[\\](){}<>/%]|", "", s)
+			s, err = t.PregReplace("[ \\[\\](){}<>/%]", "", s)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 2099488c01ff6d7ab72df99a8d80d7a42d8ea5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:11 +0000
Subject: [PATCH 63/66] fix: fontmaker must not panic when font file is only
 extension

---
 minigopdf/fontmaker/core/fontmaker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index 89ae9a1..93489fe 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -63,6 +63,9 @@ func (f *FontMaker) MakeFont(fontpath string, mappath string, encode string, out
 	basename := filepath.Base(fontpath)
 	tmp := strings.Split(basename, ".")
 	basename = strings.Replace(tmp[0], " ", "_", -1)
+	if basename == "" {
+		return errors.New("font file has no name")
+	}
 	gzfilename := basename + ".z"
 
 	var buff bytes.Buffer
-- 
2.43.0


From c218899277ffbfd2221e75e93ca837bab390118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:11 +0000
Subject: [PATCH 64/66] fix: definition file must be right when name of font
 has quote

---
 minigopdf/fontmaker/core/fontmaker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index 93489fe..d798de5 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -152,7 +152,7 @@ func (f *FontMaker) MakeDefinitionFile(gofontname string, mappath string, export
 	if err != nil {
 		return "", err
 	}
-	str += fmt.Sprintf("\tme.name = \"%s\"\n", tmpStr)
+	str += fmt.Sprintf("\tme.name = %q\n", tmpStr)
 
 	str += "\tme.enc = \"" + encode + "\"\n"
 	diff, err := f.MakeFontEncoding(mappath, fontmaps)
-- 
2.43.0


From 317c394c87bb48b3382e583ee908bc1186428f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:40 +0000
Subject: [PATCH 65/66] fix: Start on a GoPdf that was used before begins a new
 document

---
 minigopdf/gopdf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index be258e4..4098fbd 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -317,6 +317,9 @@ func (gp *GoPdf) AddPageWithOption(opt PageOption) {
 // Start : init gopdf
 func (gp *GoPdf) Start(config Config) {
 
+	if len(gp.pdfObjs) > 0 { //started before, nothing of that document is kept
+		*gp = GoPdf{}
+	}
 	gp.config = config
 	gp.init()
 	//สร้าง obj พื้นฐาน
-- 
2.43.0


From 143e32b1751ccc29a38e2cc7b754588ad3b45cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:40 +0000
Subject: [PATCH 66/66] fix: InsertWrapText that fails for a missing character
 leaves nothing in the font

---
 pdft.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pdft.go b/pdft.go
index 69afe7a..df7c285 100644
--- a/pdft.go
+++ b/pdft.go
@@ -258,6 +258,17 @@ func (i *PDFt) InsertWrapText(text string,
 		return fmt.Errorf("BreakTextToToken %s : %w", text, err)
 	}
 
+	if allText := strings.Join(tokens, ""); allText != "" { //font must have all characters, before some of them are added to it
+		fontData, have := i.fontDatas[i.curr.fontName]
+		if !have {
+			return ErrFontNameNotFound
+		}
+		err = fontData.addChars(allText)
+		if err != nil {
+			return err
+		}
+	}
+
 	var renderCaches []cacheWrapTextRender
 
 	prevText := ""
-- 
2.43.0

