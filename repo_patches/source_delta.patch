From 2439a8a5be9692b8b0b7fd6d956c51f976941d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 01/43] fix: report XML decoding errors instead of ending the
 schema early

---
 parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 781c36a..5a06e1f 100644
--- a/parser.go
+++ b/parser.go
@@ -11,6 +11,7 @@ package xgen
 import (
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"reflect"
@@ -100,10 +101,14 @@ func (opt *Options) Parse() (err error) {
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
 	for {
-		token, _ := decoder.Token()
-		if token == nil {
+		var token xml.Token
+		if token, err = decoder.Token(); err == io.EOF {
+			err = nil
 			break
 		}
+		if err != nil {
+			return
+		}
 
 		switch element := token.(type) {
 		case xml.StartElement:
-- 
2.43.0


From 3e24793fab67a1b26bbbb39d68752f036bd29c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:05 +0000
Subject: [PATCH 02/43] fix: report failures to parse imported and included
 schemas

---
 parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 5a06e1f..7902422 100644
--- a/parser.go
+++ b/parser.go
@@ -196,7 +196,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 				ParseFileMap:        opt.ParseFileMap,
 				ProtoTree:           make([]interface{}, 0),
 			})
-			if parser.Parse() != nil {
+			if err = parser.Parse(); err != nil {
 				return
 			}
 			if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) {
@@ -223,7 +223,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 			ParseFileMap:        opt.ParseFileMap,
 			ProtoTree:           make([]interface{}, 0),
 		})
-		if parser.Parse() != nil {
+		if err = parser.Parse(); err != nil {
 			return
 		}
 		depXSDSchema = parser.ProtoTree
@@ -244,7 +244,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		ParseFileMap:        opt.ParseFileMap,
 		ProtoTree:           make([]interface{}, 0),
 	})
-	if parser.Parse() != nil {
+	if err = parser.Parse(); err != nil {
 		return
 	}
 	valueType = getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree)
-- 
2.43.0


From 038026c11c376746ec60fc874f1f69c254ab44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 03/43] fix: look types up in included schemas in a fixed order

---
 parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.go b/parser.go
index 7902422..e4c6b4c 100644
--- a/parser.go
+++ b/parser.go
@@ -15,6 +15,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 
 	"golang.org/x/net/html/charset"
@@ -183,7 +184,12 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	if fi.IsDir() {
 		// extract type of value from include schema.
 		valueType = ""
+		includes := make([]string, 0, len(opt.IncludeMap))
 		for include := range opt.IncludeMap {
+			includes = append(includes, include)
+		}
+		sort.Strings(includes)
+		for _, include := range includes {
 			parser := NewParser(&Options{
 				FilePath:            filepath.Join(opt.FileDir, include),
 				OutputDir:           opt.OutputDir,
-- 
2.43.0


From 9f82476baa342e74707c8555eaf3fb80f35decdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 04/43] fix: resolve included schema locations against the
 including schema

---
 parser.go     |  2 +-
 xmlInclude.go | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index e4c6b4c..46bc316 100644
--- a/parser.go
+++ b/parser.go
@@ -191,7 +191,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		sort.Strings(includes)
 		for _, include := range includes {
 			parser := NewParser(&Options{
-				FilePath:            filepath.Join(opt.FileDir, include),
+				FilePath:            include,
 				OutputDir:           opt.OutputDir,
 				Extract:             true,
 				Lang:                opt.Lang,
diff --git a/xmlInclude.go b/xmlInclude.go
index 6be1659..08e8003 100644
--- a/xmlInclude.go
+++ b/xmlInclude.go
@@ -8,7 +8,10 @@
 
 package xgen
 
-import "encoding/xml"
+import (
+	"encoding/xml"
+	"path/filepath"
+)
 
 // OnInclude handles parsing event on the include start elements. The list
 // element defines a simple type element as a list of values of a specified
@@ -16,10 +19,14 @@ import "encoding/xml"
 func (opt *Options) OnInclude(ele xml.StartElement, protoTree []interface{}) (err error) {
 	for _, ele := range ele.Attr {
 		if ele.Name.Local == "schemaLocation" {
-			if _, ok := opt.IncludeMap[ele.Value]; ok {
+			if isValidURL(ele.Value) {
 				continue
 			}
-			opt.IncludeMap[ele.Value] = true
+			include := filepath.Join(opt.FileDir, ele.Value)
+			if _, ok := opt.IncludeMap[include]; ok {
+				continue
+			}
+			opt.IncludeMap[include] = true
 		}
 	}
 	return
-- 
2.43.0


From d8b5e9ce39d3bd0e4246e922c841c41097e2c2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:34 +0000
Subject: [PATCH 05/43] fix: keep the namespace and import tables of different
 schema documents apart

---
 parser.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parser.go b/parser.go
index 46bc316..ae8081e 100644
--- a/parser.go
+++ b/parser.go
@@ -196,8 +196,8 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 				Extract:             true,
 				Lang:                opt.Lang,
 				IncludeMap:          opt.IncludeMap,
-				LocalNameNSMap:      opt.LocalNameNSMap,
-				NSSchemaLocationMap: opt.NSSchemaLocationMap,
+				LocalNameNSMap:      make(map[string]string),
+				NSSchemaLocationMap: make(map[string]string),
 				ParseFileList:       opt.ParseFileList,
 				ParseFileMap:        opt.ParseFileMap,
 				ProtoTree:           make([]interface{}, 0),
@@ -222,9 +222,9 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 			OutputDir:           opt.OutputDir,
 			Extract:             false,
 			Lang:                opt.Lang,
-			IncludeMap:          opt.IncludeMap,
-			LocalNameNSMap:      opt.LocalNameNSMap,
-			NSSchemaLocationMap: opt.NSSchemaLocationMap,
+			IncludeMap:          make(map[string]bool),
+			LocalNameNSMap:      make(map[string]string),
+			NSSchemaLocationMap: make(map[string]string),
 			ParseFileList:       opt.ParseFileList,
 			ParseFileMap:        opt.ParseFileMap,
 			ProtoTree:           make([]interface{}, 0),
@@ -243,9 +243,9 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		OutputDir:           opt.OutputDir,
 		Extract:             true,
 		Lang:                opt.Lang,
-		IncludeMap:          opt.IncludeMap,
-		LocalNameNSMap:      opt.LocalNameNSMap,
-		NSSchemaLocationMap: opt.NSSchemaLocationMap,
+		IncludeMap:          make(map[string]bool),
+		LocalNameNSMap:      make(map[string]string),
+		NSSchemaLocationMap: make(map[string]string),
 		ParseFileList:       opt.ParseFileList,
 		ParseFileMap:        opt.ParseFileMap,
 		ProtoTree:           make([]interface{}, 0),
-- 
2.43.0


From 54580b2d99b1b0a1c39b16e2632cafbd406ce87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 06/43] fix: generate imported schemas with the package and
 input directory of the run

---
 parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.go b/parser.go
index ae8081e..7303e9f 100644
--- a/parser.go
+++ b/parser.go
@@ -219,9 +219,11 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	if !ok {
 		parser := NewParser(&Options{
 			FilePath:            xsdFile,
+			InputDir:            opt.InputDir,
 			OutputDir:           opt.OutputDir,
 			Extract:             false,
 			Lang:                opt.Lang,
+			Package:             opt.Package,
 			IncludeMap:          make(map[string]bool),
 			LocalNameNSMap:      make(map[string]string),
 			NSSchemaLocationMap: make(map[string]string),
-- 
2.43.0


From 660d20db52e807a765f248bc2c94eabe5964eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:39 +0000
Subject: [PATCH 07/43] fix: return the error when the output directory cannot
 be created

---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 7303e9f..e7bffdd 100644
--- a/parser.go
+++ b/parser.go
@@ -138,9 +138,8 @@ func (opt *Options) Parse() (err error) {
 		opt.ParseFileList[opt.FilePath] = true
 		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
 		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
-		if err := PrepareOutputDir(filepath.Dir(path)); err != nil {
-			fmt.Println(err)
-			os.Exit(1)
+		if err = PrepareOutputDir(filepath.Dir(path)); err != nil {
+			return
 		}
 		generator := &CodeGenerator{
 			Lang:      opt.Lang,
-- 
2.43.0


From af45a1c5be2d094e98c181089a1e4505a1226c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:41 +0000
Subject: [PATCH 08/43] fix: report errors met while walking the input
 directory

---
 utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.go b/utils.go
index 459a8e9..852382f 100644
--- a/utils.go
+++ b/utils.go
@@ -47,6 +47,9 @@ func GetFileList(path string) (files []string, err error) {
 	}
 	if fi.IsDir() {
 		err = filepath.Walk(path, func(fp string, info os.FileInfo, err error) error {
+			if err != nil {
+				return err
+			}
 			files = append(files, fp)
 			return nil
 		})
-- 
2.43.0


From 995ea82e6fd10206f7a5bcb2c58005e8ac0ff1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:44 +0000
Subject: [PATCH 09/43] fix: recognise the root schema when an imported schema
 imports it back

---
 parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index e7bffdd..74b3daa 100644
--- a/parser.go
+++ b/parser.go
@@ -79,9 +79,10 @@ func (opt *Options) Parse() (err error) {
 		return
 	}
 	defer xmlFile.Close()
+	fileKey := filepath.Clean(opt.FilePath)
 	if !opt.Extract {
-		opt.ParseFileList[opt.FilePath] = true
-		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
+		opt.ParseFileList[fileKey] = true
+		opt.ParseFileMap[fileKey] = opt.ProtoTree
 	}
 	opt.ProtoTree = make([]interface{}, 0)
 
@@ -135,8 +136,8 @@ func (opt *Options) Parse() (err error) {
 	}
 
 	if !opt.Extract {
-		opt.ParseFileList[opt.FilePath] = true
-		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
+		opt.ParseFileList[fileKey] = true
+		opt.ParseFileMap[fileKey] = opt.ProtoTree
 		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
 		if err = PrepareOutputDir(filepath.Dir(path)); err != nil {
 			return
-- 
2.43.0


From a130c8d486072838a7f2275eb7b969e0349c4556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 10/43] fix: report failures to write or close the generated
 file

---
 genC.go          | 6 ++++--
 genGo.go         | 6 ++++--
 genJava.go       | 6 ++++--
 genRust.go       | 6 ++++--
 genTypeScript.go | 7 ++++---
 5 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/genC.go b/genC.go
index 09e2a88..83afd28 100644
--- a/genC.go
+++ b/genC.go
@@ -51,8 +51,10 @@ func (gen *CodeGenerator) GenC() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
-	return err
+	if _, err = f.Write(source); err != nil {
+		return err
+	}
+	return f.Close()
 }
 
 func innerArray(dataType string) (string, bool) {
diff --git a/genGo.go b/genGo.go
index c27fa36..7b36511 100644
--- a/genGo.go
+++ b/genGo.go
@@ -91,8 +91,10 @@ func (gen *CodeGenerator) GenGo() error {
 		f.WriteString(fmt.Sprintf("package %s\n%s%s", packageName, importPackage, gen.Field))
 		return err
 	}
-	f.Write(source)
-	return err
+	if _, err = f.Write(source); err != nil {
+		return err
+	}
+	return f.Close()
 }
 
 func genGoFieldName(name string, unique bool) (fieldName string) {
diff --git a/genJava.go b/genJava.go
index 70cbc87..80b0350 100644
--- a/genJava.go
+++ b/genJava.go
@@ -59,8 +59,10 @@ import javax.xml.bind.annotation.XmlSchemaType;
 import javax.xml.bind.annotation.XmlType;
 import javax.xml.bind.annotation.XmlValue;`
 
-	f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
-	return err
+	if _, err = f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field))); err != nil {
+		return err
+	}
+	return f.Close()
 }
 
 func genJavaFieldName(name string, unique bool) (fieldName string) {
diff --git a/genRust.go b/genRust.go
index f3b9cb6..9747325 100644
--- a/genRust.go
+++ b/genRust.go
@@ -116,8 +116,10 @@ extern crate serde_xml_rs;
 
 use serde_xml_rs::from_reader;`
 	source := []byte(fmt.Sprintf("%s\n\n%s\n%s", copyright, extern, gen.Field))
-	f.Write(source)
-	return err
+	if _, err = f.Write(source); err != nil {
+		return err
+	}
+	return f.Close()
 }
 
 // genRustFieldName generate struct field name for Rust code.
diff --git a/genTypeScript.go b/genTypeScript.go
index b5f9d38..55a3a1c 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -42,9 +42,10 @@ func (gen *CodeGenerator) GenTypeScript() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
-	return err
-
+	if _, err = f.Write(source); err != nil {
+		return err
+	}
+	return f.Close()
 }
 
 func genTypeScriptFieldName(name string, unique bool) (fieldName string) {
-- 
2.43.0


From 8fd34f808453ccad36a5462ffdd3306c9a3c9adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 11/43] fix: do not call event handlers with arguments they do
 not accept

---
 utils.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 852382f..1a4fd14 100644
--- a/utils.go
+++ b/utils.go
@@ -206,10 +206,19 @@ func ToTitle(val string) string {
 }
 
 // callFuncByName calls the no error or only error return function with
-// reflect by given receiver, name and parameters.
+// reflect by given receiver, name and parameters. A function of that name
+// which does not accept the parameters is not called.
 func callFuncByName(receiver interface{}, name string, params []reflect.Value) (err error) {
 	function := reflect.ValueOf(receiver).MethodByName(name)
 	if function.IsValid() {
+		if function.Type().NumIn() != len(params) {
+			return
+		}
+		for i, param := range params {
+			if !param.Type().AssignableTo(function.Type().In(i)) {
+				return
+			}
+		}
 		rt := function.Call(params)
 		if len(rt) == 0 {
 			return
-- 
2.43.0


From 3d684e5ddaa63a4aa9aea73e42d0f23ad13c8357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:07 +0000
Subject: [PATCH 12/43] fix: do not crash on an anonymous complex type without
 an enclosing element

---
 xmlComplexType.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/xmlComplexType.go b/xmlComplexType.go
index ff477e0..a45f796 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -14,10 +14,11 @@ import "encoding/xml"
 // complex element contains other elements and/or attributes.
 func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{}) (err error) {
 	if opt.ComplexType.Len() > 0 {
-		e := opt.Element.Pop().(*Element)
-		opt.ComplexType.Push(&ComplexType{
-			Name: e.Name,
-		})
+		c := ComplexType{}
+		if e, ok := opt.Element.Pop().(*Element); ok {
+			c.Name = e.Name
+		}
+		opt.ComplexType.Push(&c)
 	}
 
 	if opt.ComplexType.Len() == 0 {
@@ -29,8 +30,9 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 			}
 		}
 		if c.Name == "" {
-			e := opt.Element.Pop().(*Element)
-			c.Name = e.Name
+			if e, ok := opt.Element.Pop().(*Element); ok {
+				c.Name = e.Name
+			}
 		}
 		opt.ComplexType.Push(&c)
 	}
-- 
2.43.0


From a40fd8a554c4e900eb8b30fb73791a0740e98980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:21 +0000
Subject: [PATCH 13/43] fix: do not depend on the attribute order of import
 elements

---
 schema.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schema.go b/schema.go
index de72f46..f15fde7 100644
--- a/schema.go
+++ b/schema.go
@@ -24,6 +24,8 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 		if ele.Name.Local == "namespace" {
 			currentNS = ele.Value
 		}
+	}
+	for _, ele := range element.Attr {
 		if ele.Name.Local == "schemaLocation" {
 			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {
 				continue
-- 
2.43.0


From aae00e5fc39d31dfdc29796ee7cc18d3c561e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 14/43] fix: read maxOccurs of group references like that of
 elements

---
 xmlGroup.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xmlGroup.go b/xmlGroup.go
index 2a463e6..096e5c9 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -8,7 +8,10 @@
 
 package xgen
 
-import "encoding/xml"
+import (
+	"encoding/xml"
+	"strconv"
+)
 
 // OnGroup handles parsing event on the group start elements. The group
 // element is used to define a group of elements to be used in complex type
@@ -27,8 +30,12 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 			}
 		}
 		if attr.Name.Local == "maxOccurs" {
-			if attr.Value != "0" {
-				group.Plural = true
+			var maxOccurs int
+			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
+				return
+			}
+			if attr.Value == "unbounded" || maxOccurs > 1 {
+				group.Plural, err = true, nil
 			}
 		}
 	}
-- 
2.43.0


From 4f5db8eeab94e326909126faf985c1dce78116d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:04 +0000
Subject: [PATCH 15/43] fix: import the packages used by every kind of
 generated Go type

---
 genGo.go | 53 +++++++++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/genGo.go b/genGo.go
index 7b36511..9850e2b 100644
--- a/genGo.go
+++ b/genGo.go
@@ -131,15 +131,25 @@ func genGoFieldType(name string) string {
 	return "interface{}"
 }
 
+// goFieldType returns the Go type for the given type name and records the
+// packages which are required to be imported for it.
+func (gen *CodeGenerator) goFieldType(name string) string {
+	fieldType := genGoFieldType(name)
+	switch fieldType {
+	case "time.Time":
+		gen.ImportTime = true
+	case "xml.Name":
+		gen.ImportEncodingXML = true
+	}
+	return fieldType
+}
+
 // GoSimpleType generates code for simple type XML schema in Go language
 // syntax.
 func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
-			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
-			if fieldType == "time.Time" {
-				gen.ImportTime = true
-			}
+			fieldType := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
 			content := fmt.Sprintf(" []%s\n", genGoFieldType(fieldType))
 			gen.StructAST[v.Name] = content
 			fieldName := genGoFieldName(v.Name, true)
@@ -162,7 +172,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
-				content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(memberName, false), genGoFieldType(memberType))
+				content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(memberName, false), gen.goFieldType(memberType))
 			}
 			content += "}\n"
 			gen.StructAST[v.Name] = content
@@ -171,7 +181,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 		return
 	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
-		content := fmt.Sprintf(" %s\n", genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
+		content := fmt.Sprintf(" %s\n", gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
 		fieldName := genGoFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
@@ -190,10 +200,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 		}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			if fieldType == "time.Time" {
-				gen.ImportTime = true
-			}
-			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), genGoFieldType(fieldType))
+			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), gen.goFieldType(fieldType))
 		}
 
 		for _, attribute := range v.Attributes {
@@ -201,10 +208,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if attribute.Optional {
 				optional = `,omitempty`
 			}
-			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			if fieldType == "time.Time" {
-				gen.ImportTime = true
-			}
+			fieldType := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
 			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, attribute.Name, optional)
 		}
 		for _, group := range v.Groups {
@@ -212,7 +216,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
 		}
 
 		for _, element := range v.Elements {
@@ -220,10 +224,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if element.Plural {
 				plural = "[]"
 			}
-			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
-			if fieldType == "time.Time" {
-				gen.ImportTime = true
-			}
+			fieldType := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, fieldType, element.Name)
 		}
 		if len(v.Base) > 0 {
@@ -231,9 +232,9 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			// If it's not built-in one, embed the base type in the struct for the child type
 			// to effectively inherit all of the base type's fields
 			if isGoBuiltInType(v.Base) {
-				content += fmt.Sprintf("\tValue\t%s\t`xml:\",chardata\"`\n", genGoFieldType(v.Base))
+				content += fmt.Sprintf("\tValue\t%s\t`xml:\",chardata\"`\n", gen.goFieldType(v.Base))
 			} else {
-				content += fmt.Sprintf("\t%s\n", genGoFieldType(v.Base))
+				content += fmt.Sprintf("\t%s\n", gen.goFieldType(v.Base))
 			}
 		}
 		content += "}\n"
@@ -261,7 +262,7 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 			if element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(element.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(element.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)))
 		}
 
 		for _, group := range v.Groups {
@@ -269,7 +270,7 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
 		}
 
 		content += "}\n"
@@ -293,7 +294,7 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				optional = `,omitempty`
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), attribute.Name, optional)
+			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), gen.goFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), attribute.Name, optional)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
@@ -308,7 +309,7 @@ func (gen *CodeGenerator) GoElement(v *Element) {
 		if v.Plural {
 			plural = "[]"
 		}
-		content := fmt.Sprintf("\t%s%s\n", plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
+		content := fmt.Sprintf("\t%s%s\n", plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
 		fieldName := genGoFieldName(v.Name, false)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
@@ -322,7 +323,7 @@ func (gen *CodeGenerator) GoAttribute(v *Attribute) {
 		if v.Plural {
 			plural = "[]"
 		}
-		content := fmt.Sprintf("\t%s%s\n", plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
+		content := fmt.Sprintf("\t%s%s\n", plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
 		fieldName := genGoFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
-- 
2.43.0


From 0e04c6c379d1204998c2373f6c20c550dc3d39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:06 +0000
Subject: [PATCH 16/43] fix: generate valid Go for list types of user defined
 types

---
 genGo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genGo.go b/genGo.go
index 9850e2b..4853149 100644
--- a/genGo.go
+++ b/genGo.go
@@ -150,7 +150,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			fieldType := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
-			content := fmt.Sprintf(" []%s\n", genGoFieldType(fieldType))
+			content := fmt.Sprintf(" []%s\n", fieldType)
 			gen.StructAST[v.Name] = content
 			fieldName := genGoFieldName(v.Name, true)
 			gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
-- 
2.43.0


From ee6cd94c59b0b27adcb21c142b457623aa7062d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:09 +0000
Subject: [PATCH 17/43] fix: take the multiplicity of Rust group members from
 the members

---
 genRust.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genRust.go b/genRust.go
index 9747325..3e25282 100644
--- a/genRust.go
+++ b/genRust.go
@@ -277,7 +277,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		for _, element := range v.Elements {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			fieldName := genRustFieldName(element.Name)
-			if v.Plural {
+			if element.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", element.Name, fieldName, fieldType)
 			} else {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", element.Name, fieldName, fieldType)
@@ -286,7 +286,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			fieldName := genRustFieldName(group.Name)
-			if v.Plural {
+			if group.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", group.Name, fieldName, fieldType)
 			} else {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", group.Name, fieldName, fieldType)
-- 
2.43.0


From 2049dc18e89b154226f3da465fed3fa45735eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 18/43] fix: do not generate sequences for required attributes
 of Rust attribute groups

---
 genRust.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genRust.go b/genRust.go
index 3e25282..8a1ca00 100644
--- a/genRust.go
+++ b/genRust.go
@@ -307,7 +307,7 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			}
 		}
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From 63bca85835bce16fa9ca13dc05c6700cdec2c125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:14 +0000
Subject: [PATCH 19/43] fix: bind members of Rust unions by their own names

---
 genRust.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genRust.go b/genRust.go
index 8a1ca00..2ab58ff 100644
--- a/genRust.go
+++ b/genRust.go
@@ -194,7 +194,7 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, genRustFieldName(memberName), genRustFieldType(memberType))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", memberName, genRustFieldName(memberName), genRustFieldType(memberType))
 			}
 			gen.StructAST[v.Name] = content
 			gen.Field += fmt.Sprintf("\n#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genRustStructName(v.Name, true), gen.StructAST[v.Name])
-- 
2.43.0


From baef12d43b84059b979bbaeb79476247d5ebc2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 20/43] fix: put the attribute suffix on the field name in Java
 attribute groups

---
 genJava.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genJava.go b/genJava.go
index 80b0350..a344b9f 100644
--- a/genJava.go
+++ b/genJava.go
@@ -236,7 +236,7 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %sAttr %s;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From a5ee8d17015ffdeff7e051d54bce25a4f13c536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:18 +0000
Subject: [PATCH 21/43] fix: name Rust types of elements and attributes like
 the references to them

---
 genRust.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/genRust.go b/genRust.go
index 2ab58ff..498e421 100644
--- a/genRust.go
+++ b/genRust.go
@@ -326,7 +326,8 @@ func (gen *CodeGenerator) RustElement(v *Element) {
 		} else {
 			gen.StructAST[v.Name] = fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, fieldName, fieldType)
 		}
-		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
+		structName := genRustStructName(v.Name, true)
+		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(structName, v.Doc, "//"), structName, gen.StructAST[v.Name])
 	}
 }
 
@@ -340,6 +341,7 @@ func (gen *CodeGenerator) RustAttribute(v *Attribute) {
 		} else {
 			gen.StructAST[v.Name] = fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, fieldName, fieldType)
 		}
-		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
+		structName := genRustStructName(v.Name, true)
+		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(structName, v.Doc, "//"), structName, gen.StructAST[v.Name])
 	}
 }
-- 
2.43.0


From d647076f4c1e1a84350f950322b88e1221d3a8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:21 +0000
Subject: [PATCH 22/43] fix: give colliding Go types of elements distinct names

---
 genGo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genGo.go b/genGo.go
index 4853149..a42136d 100644
--- a/genGo.go
+++ b/genGo.go
@@ -311,7 +311,7 @@ func (gen *CodeGenerator) GoElement(v *Element) {
 		}
 		content := fmt.Sprintf("\t%s%s\n", plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
-		fieldName := genGoFieldName(v.Name, false)
+		fieldName := genGoFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
 }
-- 
2.43.0


From 82c75331a9749f32a14f51a4742eb5033ca2205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 23/43] fix: give colliding C types distinct names in their
 declarations

---
 genC.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index 83afd28..48046a1 100644
--- a/genC.go
+++ b/genC.go
@@ -104,9 +104,9 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			fieldType := genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
-			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), genCFieldName(v.Name, false))
-			gen.StructAST[v.Name] = content
 			fieldName := genCFieldName(v.Name, true)
+			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), fieldName)
+			gen.StructAST[v.Name] = content
 			gen.Field += fmt.Sprintf("%stypedef %s", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 			return
 		}
@@ -141,8 +141,8 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))); ok {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
 		fieldName := genCFieldName(v.Name, true)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, fieldName, plural)
 		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 	}
 }
@@ -253,7 +253,7 @@ func (gen *CodeGenerator) CElement(v *Element) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))); ok || v.Plural {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, true), plural)
 		gen.Field += fmt.Sprintf("\ntypedef %s;\n", gen.StructAST[v.Name])
 	}
 }
@@ -266,8 +266,8 @@ func (gen *CodeGenerator) CAttribute(v *Attribute) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))); ok || v.Plural {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
 		fieldName := genCFieldName(v.Name, true)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, fieldName, plural)
 		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 	}
 }
-- 
2.43.0


From 24db17a9d3793fae0d28a784b0d5e2367f3e5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:57 +0000
Subject: [PATCH 24/43] fix: put array brackets of C members after the member
 name everywhere

---
 genC.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/genC.go b/genC.go
index 48046a1..5ce7e05 100644
--- a/genC.go
+++ b/genC.go
@@ -103,7 +103,7 @@ func genCFieldType(name string) string {
 func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
-			fieldType := genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
+			fieldType, _ := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
 			fieldName := genCFieldName(v.Name, true)
 			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), fieldName)
 			gen.StructAST[v.Name] = content
@@ -153,8 +153,12 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
 		for _, attrGroup := range v.AttributeGroup {
-			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t%s %s;\n", genCFieldType(fieldType), genCFieldName(attrGroup.Name, false))
+			var plural string
+			fieldType, ok := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)))
+			if ok {
+				plural = "[]"
+			}
+			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(attrGroup.Name, false), plural)
 		}
 
 		for _, attribute := range v.Attributes {
@@ -172,10 +176,11 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 
 		for _, group := range v.Groups {
 			var plural string
-			if group.Plural {
+			fieldType, ok := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			if ok || group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)), genCFieldName(group.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(group.Name, false), plural)
 		}
 
 		for _, element := range v.Elements {
@@ -201,18 +206,20 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 		content := "struct {\n"
 		for _, element := range v.Elements {
 			var plural string
-			if element.Plural {
+			fieldType, ok := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)))
+			if ok || element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)), genCFieldName(element.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(element.Name, false), plural)
 		}
 
 		for _, group := range v.Groups {
 			var plural string
-			if group.Plural {
+			fieldType, ok := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			if ok || group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)), genCFieldName(group.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(group.Name, false), plural)
 		}
 
 		content += "}"
-- 
2.43.0


From 74300d02934bd34b8bf8580d4efd80d05b4d05fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 25/43] fix: keep documentation with any line terminator inside
 comments

---
 utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 1a4fd14..bb3ddd7 100644
--- a/utils.go
+++ b/utils.go
@@ -267,7 +267,8 @@ func fetchSchema(URL string) ([]byte, error) {
 }
 
 func genFieldComment(name, doc, prefix string) string {
-	docReplacer := strings.NewReplacer("\n", fmt.Sprintf("\r\n%s ", prefix), "\t", "")
+	newLine := fmt.Sprintf("\r\n%s ", prefix)
+	docReplacer := strings.NewReplacer("\r\n", newLine, "\n", newLine, "\r", newLine, "\u2028", newLine, "\u2029", newLine, "\t", "")
 	if doc == "" {
 		return fmt.Sprintf("\r\n%s %s ...\r\n", prefix, name)
 	}
-- 
2.43.0


From 3115e973349f124fb03d1fc9389554777408940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 26/43] fix: map NOTATION to a text type

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index bb3ddd7..67c1357 100644
--- a/utils.go
+++ b/utils.go
@@ -89,7 +89,7 @@ var BuildInTypes = map[string][]string{
 	"NCName":             {"string", "string", "char", "String", "String"},
 	"NMTOKEN":            {"string", "string", "char", "String", "String"},
 	"NMTOKENS":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
-	"NOTATION":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
+	"NOTATION":           {"string", "string", "char", "String", "String"},
 	"Name":               {"string", "string", "char", "String", "String"},
 	"QName":              {"xml.Name", "any", "char", "String", "String"},
 	"anyURI":             {"string", "string", "char", "QName", "String"},
-- 
2.43.0


From 7faa4e92c2eafba6eefaf554b85a5e0af2b741f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:04 +0000
Subject: [PATCH 27/43] fix: map anyURI to String in Java

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 67c1357..585f4a7 100644
--- a/utils.go
+++ b/utils.go
@@ -92,7 +92,7 @@ var BuildInTypes = map[string][]string{
 	"NOTATION":           {"string", "string", "char", "String", "String"},
 	"Name":               {"string", "string", "char", "String", "String"},
 	"QName":              {"xml.Name", "any", "char", "String", "String"},
-	"anyURI":             {"string", "string", "char", "QName", "String"},
+	"anyURI":             {"string", "string", "char", "String", "String"},
 	"base64Binary":       {"string", "Uint8Array", "char[]", "List<Byte>", "String"},
 	"boolean":            {"bool", "boolean", "bool", "Boolean", "bool"},
 	"byte":               {"int8", "any", "char[]", "Byte", "u8"},
-- 
2.43.0


From 0100adb8584f49bcb8c60fb6ef809935fc68a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:07 +0000
Subject: [PATCH 28/43] fix: map fixed width integer types to types holding all
 their values

---
 utils.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utils.go b/utils.go
index 585f4a7..953e6ba 100644
--- a/utils.go
+++ b/utils.go
@@ -95,7 +95,7 @@ var BuildInTypes = map[string][]string{
 	"anyURI":             {"string", "string", "char", "String", "String"},
 	"base64Binary":       {"string", "Uint8Array", "char[]", "List<Byte>", "String"},
 	"boolean":            {"bool", "boolean", "bool", "Boolean", "bool"},
-	"byte":               {"int8", "any", "char[]", "Byte", "u8"},
+	"byte":               {"int8", "number", "signed char", "Byte", "i8"},
 	"date":               {"string", "string", "char", "String", "u8"},
 	"dateTime":           {"string", "string", "char", "String", "u8"},
 	"decimal":            {"float64", "number", "float", "Float", "f64"},
@@ -111,7 +111,7 @@ var BuildInTypes = map[string][]string{
 	"int":                {"int", "number", "int", "Integer", "i32"},
 	"integer":            {"int", "number", "int", "Integer", "i32"},
 	"language":           {"string", "string", "char", "String", "String"},
-	"long":               {"int64", "number", "int", "Long", "i64"},
+	"long":               {"int64", "number", "long", "Long", "i64"},
 	"negativeInteger":    {"int", "number", "int", "Integer", "i32"},
 	"nonNegativeInteger": {"int", "number", "int", "Integer", "u32"},
 	"normalizedString":   {"string", "string", "char", "String", "String"},
@@ -121,10 +121,10 @@ var BuildInTypes = map[string][]string{
 	"string":             {"string", "string", "char", "String", "String"},
 	"time":               {"time.Time", "string", "char", "String", "String"},
 	"token":              {"string", "string", "char", "String", "String"},
-	"unsignedByte":       {"uint8", "any", "char", "Byte", "u8"},
-	"unsignedInt":        {"uint32", "number", "unsigned int", "Integer", "u32"},
-	"unsignedLong":       {"uint64", "number", "unsigned int", "Long", "u64"},
-	"unsignedShort":      {"uint16", "number", "unsigned int", "Short", "u16"},
+	"unsignedByte":       {"uint8", "number", "unsigned char", "Short", "u8"},
+	"unsignedInt":        {"uint32", "number", "unsigned int", "Long", "u32"},
+	"unsignedLong":       {"uint64", "number", "unsigned long", "Long", "u64"},
+	"unsignedShort":      {"uint16", "number", "unsigned int", "Integer", "u16"},
 	"xml:lang":           {"string", "string", "char", "String", "String"},
 	"xml:space":          {"string", "string", "char", "String", "String"},
 	"xml:base":           {"string", "string", "char", "String", "String"},
-- 
2.43.0


From 4e717a0ff06f9bf089bf74827edf1feedc895719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:09 +0000
Subject: [PATCH 29/43] fix: generate a value member for TypeScript types
 extending any or array types

---
 genTypeScript.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index 55a3a1c..0671e14 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -189,7 +189,7 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 
 func isBuiltInTypeScriptType(typeName string) bool {
 	_, builtIn := typeScriptBuildInType[typeName]
-	return builtIn
+	return builtIn || typeName == "any" || strings.HasPrefix(typeName, "Array<")
 }
 
 // TypeScriptGroup generates code for group XML schema in TypeScript language syntax.
-- 
2.43.0


From cef5562d70fd28804553ee218b92be49eb6d57ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:11 +0000
Subject: [PATCH 30/43] fix: generate arrays for TypeScript list types of
 built-in types

---
 genTypeScript.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index 0671e14..fe5caaf 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -90,8 +90,8 @@ func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
-			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), true)
-			content := fmt.Sprintf(" = %s;\n", fieldType)
+			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
+			content := fmt.Sprintf(" = Array<%s>;\n", fieldType)
 			gen.StructAST[v.Name] = content
 			fieldName := genTypeScriptFieldName(v.Name, true)
 			gen.Field += fmt.Sprintf("%sexport type %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
-- 
2.43.0


From d93c447a17573e0d9d95743df9c7b07c70176367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:13 +0000
Subject: [PATCH 31/43] fix: split the member types of a union at any white
 space

---
 xmlUnion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmlUnion.go b/xmlUnion.go
index dce084f..958635f 100644
--- a/xmlUnion.go
+++ b/xmlUnion.go
@@ -25,7 +25,7 @@ func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) (err
 	opt.SimpleType.Peek().(*SimpleType).MemberTypes = make(map[string]string)
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "memberTypes" {
-			memberTypes := strings.Split(attr.Value, " ")
+			memberTypes := strings.Fields(attr.Value)
 			for _, memberType := range memberTypes {
 				opt.SimpleType.Peek().(*SimpleType).MemberTypes[trimNSPrefix(memberType)], err = opt.GetValueType(memberType, protoTree)
 				if err != nil {
-- 
2.43.0


From 1ffbede1d64665661586c7259e5fb45e8d215ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:31 +0000
Subject: [PATCH 32/43] fix: place outputs below the output directory for any
 spelling of the input directory

---
 parser.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 74b3daa..e63780e 100644
--- a/parser.go
+++ b/parser.go
@@ -138,7 +138,7 @@ func (opt *Options) Parse() (err error) {
 	if !opt.Extract {
 		opt.ParseFileList[fileKey] = true
 		opt.ParseFileMap[fileKey] = opt.ProtoTree
-		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
+		path := filepath.Join(opt.OutputDir, opt.relativePath())
 		if err = PrepareOutputDir(filepath.Dir(path)); err != nil {
 			return
 		}
@@ -157,6 +157,16 @@ func (opt *Options) Parse() (err error) {
 	return
 }
 
+// relativePath returns the path of the schema file below the input directory,
+// or the path of the file when it isn't there.
+func (opt *Options) relativePath() string {
+	rel, err := filepath.Rel(opt.InputDir, opt.FilePath)
+	if err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+		return opt.FilePath
+	}
+	return rel
+}
+
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
-- 
2.43.0


From 230388e9c8b4c289b6f64c460a4c4759a54b023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:49 +0000
Subject: [PATCH 33/43] fix: search the schemas that included schemas include
 when looking up a type

---
 parser.go | 52 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/parser.go b/parser.go
index e63780e..6586f19 100644
--- a/parser.go
+++ b/parser.go
@@ -194,29 +194,37 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	if fi.IsDir() {
 		// extract type of value from include schema.
 		valueType = ""
-		includes := make([]string, 0, len(opt.IncludeMap))
-		for include := range opt.IncludeMap {
-			includes = append(includes, include)
-		}
-		sort.Strings(includes)
-		for _, include := range includes {
-			parser := NewParser(&Options{
-				FilePath:            include,
-				OutputDir:           opt.OutputDir,
-				Extract:             true,
-				Lang:                opt.Lang,
-				IncludeMap:          opt.IncludeMap,
-				LocalNameNSMap:      make(map[string]string),
-				NSSchemaLocationMap: make(map[string]string),
-				ParseFileList:       opt.ParseFileList,
-				ParseFileMap:        opt.ParseFileMap,
-				ProtoTree:           make([]interface{}, 0),
-			})
-			if err = parser.Parse(); err != nil {
-				return
+		searched := make(map[string]bool)
+		for more := true; more; {
+			more = false
+			includes := make([]string, 0, len(opt.IncludeMap))
+			for include := range opt.IncludeMap {
+				includes = append(includes, include)
 			}
-			if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) {
-				valueType = vt
+			sort.Strings(includes)
+			for _, include := range includes {
+				if searched[include] {
+					continue
+				}
+				searched[include], more = true, true
+				parser := NewParser(&Options{
+					FilePath:            include,
+					OutputDir:           opt.OutputDir,
+					Extract:             true,
+					Lang:                opt.Lang,
+					IncludeMap:          opt.IncludeMap,
+					LocalNameNSMap:      make(map[string]string),
+					NSSchemaLocationMap: make(map[string]string),
+					ParseFileList:       opt.ParseFileList,
+					ParseFileMap:        opt.ParseFileMap,
+					ProtoTree:           make([]interface{}, 0),
+				})
+				if err = parser.Parse(); err != nil {
+					return
+				}
+				if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) {
+					valueType = vt
+				}
 			}
 		}
 		if valueType == "" {
-- 
2.43.0


From aba18794c78df03e54c80e2af01398693530f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:20 +0000
Subject: [PATCH 34/43] fix: names without a prefix belong to the default
 namespace

---
 schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema.go b/schema.go
index f15fde7..641f95e 100644
--- a/schema.go
+++ b/schema.go
@@ -15,6 +15,9 @@ func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
 		if ele.Name.Space == "xmlns" {
 			opt.LocalNameNSMap[ele.Name.Local] = ele.Value
 		}
+		if ele.Name.Space == "" && ele.Name.Local == "xmlns" {
+			opt.LocalNameNSMap[""] = ele.Value
+		}
 	}
 }
 
-- 
2.43.0


From f505b12eea0b7552922b7a5c2c43cd9efd5486d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:34 +0000
Subject: [PATCH 35/43] fix: the prefix xml needs no declaration

---
 schema.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schema.go b/schema.go
index 641f95e..719c40d 100644
--- a/schema.go
+++ b/schema.go
@@ -10,7 +10,12 @@ package xgen
 
 import "encoding/xml"
 
+// xmlNamespace is the namespace the prefix xml stands for without being
+// declared.
+const xmlNamespace = "http://www.w3.org/XML/1998/namespace"
+
 func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
+	opt.LocalNameNSMap["xml"] = xmlNamespace
 	for _, ele := range element.Attr {
 		if ele.Name.Space == "xmlns" {
 			opt.LocalNameNSMap[ele.Name.Local] = ele.Value
-- 
2.43.0


From e4d60eeddd555234ce9769a04e377b98c4f2a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:29 +0000
Subject: [PATCH 36/43] fix: the documentation of an attribute isn't that of
 its attribute group

---
 xmlCharData.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmlCharData.go b/xmlCharData.go
index f934af5..22b3883 100644
--- a/xmlCharData.go
+++ b/xmlCharData.go
@@ -18,6 +18,10 @@ func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error)
 		return
 	}
 	ele = strings.TrimSpace(ele)
+	if opt.Attribute.Len() > 0 {
+		opt.Attribute.Peek().(*Attribute).Doc = ele
+		return
+	}
 	if opt.InAttributeGroup {
 		if opt.AttributeGroup.Peek() != nil {
 			opt.AttributeGroup.Peek().(*AttributeGroup).Doc = ele
@@ -30,10 +34,6 @@ func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error)
 			return
 		}
 	}
-	if opt.Attribute.Len() > 0 {
-		opt.Attribute.Peek().(*Attribute).Doc = ele
-		return
-	}
 	switch opt.CurrentEle {
 	case "simpleType":
 		if opt.SimpleType.Peek() != nil {
-- 
2.43.0


From 2c5c77312e6eebe11cbf6611eb6ec7474110611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:52 +0000
Subject: [PATCH 37/43] fix: the documentation of an element isn't that of its
 complex type

---
 xmlCharData.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmlCharData.go b/xmlCharData.go
index 22b3883..fb216b1 100644
--- a/xmlCharData.go
+++ b/xmlCharData.go
@@ -51,6 +51,11 @@ func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error)
 				opt.ComplexType.Peek().(*ComplexType).Attributes[l-1].Doc = ele
 				return
 			}
+			l = len(opt.ComplexType.Peek().(*ComplexType).Elements)
+			if l > 0 {
+				opt.ComplexType.Peek().(*ComplexType).Elements[l-1].Doc = ele
+				return
+			}
 			opt.ComplexType.Peek().(*ComplexType).Doc = ele
 			return
 		}
-- 
2.43.0


From e518208749a2dff5848fc734d78df941ff86cbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:55 +0000
Subject: [PATCH 38/43] fix: the documentation of a group isn't lost

---
 xmlCharData.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xmlCharData.go b/xmlCharData.go
index fb216b1..9cf43a7 100644
--- a/xmlCharData.go
+++ b/xmlCharData.go
@@ -59,6 +59,16 @@ func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error)
 			opt.ComplexType.Peek().(*ComplexType).Doc = ele
 			return
 		}
+	case "group":
+		if opt.Group.Peek() != nil {
+			l := len(opt.Group.Peek().(*Group).Elements)
+			if l > 0 {
+				opt.Group.Peek().(*Group).Elements[l-1].Doc = ele
+				return
+			}
+			opt.Group.Peek().(*Group).Doc = ele
+			return
+		}
 	default:
 	}
 	return
-- 
2.43.0


From 9b3da62ae4925ec3d691ae6ff9e3684e76edebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:58 +0000
Subject: [PATCH 39/43] fix: the documentation of an element with an anonymous
 type isn't lost

---
 xmlComplexType.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmlComplexType.go b/xmlComplexType.go
index a45f796..9c6fe62 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -16,7 +16,7 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 	if opt.ComplexType.Len() > 0 {
 		c := ComplexType{}
 		if e, ok := opt.Element.Pop().(*Element); ok {
-			c.Name = e.Name
+			c.Name, c.Doc = e.Name, e.Doc
 		}
 		opt.ComplexType.Push(&c)
 	}
@@ -31,7 +31,7 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 		}
 		if c.Name == "" {
 			if e, ok := opt.Element.Pop().(*Element); ok {
-				c.Name = e.Name
+				c.Name, c.Doc = e.Name, e.Doc
 			}
 		}
 		opt.ComplexType.Push(&c)
-- 
2.43.0


From 5d5acafc62eda853f889de4fa175944cfcc0c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:00 +0000
Subject: [PATCH 40/43] fix: the documentation of an enumerated value isn't
 that of the simple type

---
 xmlCharData.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmlCharData.go b/xmlCharData.go
index 9cf43a7..6b74756 100644
--- a/xmlCharData.go
+++ b/xmlCharData.go
@@ -37,6 +37,9 @@ func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error)
 	switch opt.CurrentEle {
 	case "simpleType":
 		if opt.SimpleType.Peek() != nil {
+			if len(opt.SimpleType.Peek().(*SimpleType).Restriction.Enum) > 0 {
+				return
+			}
 			opt.SimpleType.Peek().(*SimpleType).Doc = ele
 			return
 		}
-- 
2.43.0


From eb9405b989cdca030e9d3086b8cae51206dd8acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:33 +0000
Subject: [PATCH 41/43] fix: C elements, Java elements, attributes and lists
 and Rust unions keep their documentation

---
 genC.go    | 5 +++--
 genJava.go | 9 ++++++---
 genRust.go | 3 ++-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/genC.go b/genC.go
index 5ce7e05..e839e03 100644
--- a/genC.go
+++ b/genC.go
@@ -260,8 +260,9 @@ func (gen *CodeGenerator) CElement(v *Element) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))); ok || v.Plural {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, true), plural)
-		gen.Field += fmt.Sprintf("\ntypedef %s;\n", gen.StructAST[v.Name])
+		fieldName := genCFieldName(v.Name, true)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, fieldName, plural)
+		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 	}
 }
 
diff --git a/genJava.go b/genJava.go
index a344b9f..c75f3a6 100644
--- a/genJava.go
+++ b/genJava.go
@@ -107,7 +107,8 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
 			content := fmt.Sprintf("\tprotected List<%s> %s;\n", fieldType, genJavaFieldName(v.Name, false))
 			gen.StructAST[v.Name] = content
-			gen.Field += fmt.Sprintf("\n@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", v.Name, genJavaFieldName(v.Name, true), gen.StructAST[v.Name])
+			fieldName := genJavaFieldName(v.Name, true)
+			gen.Field += fmt.Sprintf("%s@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), v.Name, fieldName, gen.StructAST[v.Name])
 			return
 		}
 	}
@@ -254,7 +255,8 @@ func (gen *CodeGenerator) JavaElement(v *Element) {
 		}
 		content := fmt.Sprintf("\tprotected %s %s;\n", fieldType, genJavaFieldName(v.Name, false))
 		gen.StructAST[v.Name] = content
-		gen.Field += fmt.Sprintf("\n@XmlAccessorType(XmlAccessType.FIELD)\n@XmlElement(required = true, name = \"%s\")\npublic class %s {\n%s}\n", v.Name, genJavaFieldName(v.Name, true), gen.StructAST[v.Name])
+		fieldName := genJavaFieldName(v.Name, true)
+		gen.Field += fmt.Sprintf("%s@XmlAccessorType(XmlAccessType.FIELD)\n@XmlElement(required = true, name = \"%s\")\npublic class %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), v.Name, fieldName, gen.StructAST[v.Name])
 	}
 }
 
@@ -267,6 +269,7 @@ func (gen *CodeGenerator) JavaAttribute(v *Attribute) {
 		}
 		content := fmt.Sprintf("\tprotected %s %s;\n", fieldType, genJavaFieldName(v.Name, false))
 		gen.StructAST[v.Name] = content
-		gen.Field += fmt.Sprintf("\n@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", v.Name, genJavaFieldName(v.Name, true), gen.StructAST[v.Name])
+		fieldName := genJavaFieldName(v.Name, true)
+		gen.Field += fmt.Sprintf("%s@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), v.Name, fieldName, gen.StructAST[v.Name])
 	}
 }
diff --git a/genRust.go b/genRust.go
index 498e421..9f1e9c2 100644
--- a/genRust.go
+++ b/genRust.go
@@ -197,7 +197,8 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", memberName, genRustFieldName(memberName), genRustFieldType(memberType))
 			}
 			gen.StructAST[v.Name] = content
-			gen.Field += fmt.Sprintf("\n#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genRustStructName(v.Name, true), gen.StructAST[v.Name])
+			fieldName := genRustStructName(v.Name, true)
+			gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 		}
 		return
 	}
-- 
2.43.0


From 3bd302293feed15c87a7b2b9389fd12acfc58e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:54 +0000
Subject: [PATCH 42/43] fix: compare the type when looking for an element
 recorded before

---
 xmlElement.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmlElement.go b/xmlElement.go
index ffc3c84..3f21178 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -101,7 +101,7 @@ func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err
 
 func findElement(element *Element, elements []Element) (existing *Element, index int) {
 	for i, ele := range elements {
-		if element.Name == ele.Name {
+		if element.Name == ele.Name && element.Type == ele.Type {
 			return &ele, i
 		}
 	}
-- 
2.43.0


From fedead03b9dd0bd67e7e4f40b482a3c25d3d5841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:57 +0000
Subject: [PATCH 43/43] fix: anySimpleType is a built-in type

---
 utils.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils.go b/utils.go
index 953e6ba..8c2cfb7 100644
--- a/utils.go
+++ b/utils.go
@@ -80,6 +80,7 @@ func PrepareOutputDir(path string) error {
 // Rust languages and data types in XSD.
 // https://www.w3.org/TR/xmlschema-2/#datatype
 var BuildInTypes = map[string][]string{
+	"anySimpleType":      {"string", "string", "char", "String", "String"},
 	"anyType":            {"string", "string", "char", "String", "String"},
 	"ENTITIES":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
 	"ENTITY":             {"string", "string", "char", "String", "String"},
-- 
2.43.0

