M=[
("m9a","C02",[('parser.go','	if !opt.Extract {\n		opt.ParseFileList[fileKey] = true\n		opt.ParseFileMap[fileKey] = opt.ProtoTree\n		path','	if !opt.Extract && len(opt.ProtoTree) > 0 {\n		opt.ParseFileList[fileKey] = true\n		opt.ParseFileMap[fileKey] = opt.ProtoTree\n		path')]),
("m9b","C24",[('parser.go','	if !opt.Extract {\n		opt.ParseFileList[fileKey] = true\n		opt.ParseFileMap[fileKey] = opt.ProtoTree\n		path','	if !opt.Extract || len(opt.IncludeMap) > 0 {\n		opt.ParseFileList[fileKey] = true\n		opt.ParseFileMap[fileKey] = opt.ProtoTree\n		path')]),
("m9c","C31",[('xmlEnumeration.go','			if opt.SimpleType.Peek() != nil {','			if opt.SimpleType.Peek() != nil && attr.Value != "" {')]),
("m9d","C20",[('xmlRestriction.go','			if opt.SimpleType.Peek() != nil {\n				opt','			if opt.SimpleType.Peek() != nil && opt.SimpleType.Peek().(*SimpleType).Base == "" {\n				opt')]),
("m9e","C20",[('xmlExtension.go','			if opt.ComplexType.Peek() != nil {','			if opt.ComplexType.Peek() != nil && opt.ComplexType.Peek().(*ComplexType).Base == "" {')]),
("m9f","C24",[('parser.go','	if !ok {\n		parser','	if !ok || len(depXSDSchema) == 0 {\n		parser')]),
("m9g","C16",[('parser.go','	decoder.CharsetReader = charset.NewReaderLabel\n','	decoder.CharsetReader = charset.NewReaderLabel\n	decoder.Entity = xml.HTMLEntity\n')]),
("m9h","C16",[('parser.go','		case xml.EndElement:\n','		case xml.EndElement:\n			if element.Name.Local == "schema" {\n				break\n			}\n')]),
("m9i","C16",[('parser.go','	for {\n		var token','	for depth := 0; ; {\n		var token'),('parser.go','		case xml.EndElement:\n','		case xml.EndElement:\n			if depth--; depth == 0 {\n				goto done\n			}\n'),('parser.go','		case xml.StartElement:\n\n','		case xml.StartElement:\n			depth++\n'),('parser.go','	if !opt.Extract {\n		opt.ParseFileList[fileKey] = true\n		opt.ParseFileMap[fileKey] = opt.ProtoTree\n		path','done:\n	if !opt.Extract {\n		opt.ParseFileList[fileKey] = true\n		opt.ParseFileMap[fileKey] = opt.ProtoTree\n		path')]),
("m9j","C21",[('parser.go','				if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) {\n					valueType = vt\n				}','				if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) {\n					valueType = vt\n					break\n				}')]),
("m9k","C34",[('parser.go','				searched[include], more = true, true','				searched[include], more = true, len(opt.IncludeMap) < 8')]),
("m9l","C35",[('xmlElement.go','		element, i := findElement','		e.Doc = ""\n		element, i := findElement')]),
("m9m","C35",[('xmlCharData.go','	if opt.InElement != "" {','	if opt.InElement != "" && opt.InElement != "appinfo" {')]),
("m9n","C20",[('xmlSimpleType.go','	if opt.SimpleType.Len() == 0 {\n		opt','	if opt.SimpleType.Len() == 0 || opt.InUnion {\n		opt')]),
("m9o","C20",[('xmlComplexType.go','		if c.Name == "" {\n			if e','		if c.Name == "" && len(ele.Attr) == 0 {\n			if e')]),
("m9p","C12",[('genGo.go','		if count := fieldNameCount[fieldName]; count != 1 {\n			fieldName = fmt.Sprintf("%s%d", fieldName, count)','		if count := fieldNameCount[fieldName]; count != 1 {\n			fieldName = fmt.Sprintf("%s%d", fieldName, count%10)')]),
("m9q","C13",[('genGo.go','	for _, str := range strings.Split(name, ".") {\n		fieldType += MakeFirstUpperCase(str)\n	}\n	fieldType = strings','	for _, str := range strings.SplitN(name, ".", 2) {\n		fieldType += MakeFirstUpperCase(str)\n	}\n	fieldType = strings')]),
("m9r","C13",[('genJava.go','	for _, str := range strings.Split(name, ".") {\n		fieldType += MakeFirstUpperCase(str)\n	}\n	fieldType = Make','	for i, str := range strings.Split(name, ".") {\n		if i > 0 && len(str) == 1 {\n			str = "_" + str\n		}\n		fieldType += MakeFirstUpperCase(str)\n	}\n	fieldType = Make')]),
("m9s","C06",[('xmlAttribute.go','			if attr.Value == "required" {','			if strings.HasPrefix(attr.Value, "req") {'),('xmlAttribute.go','import "encoding/xml"','import (\n	"encoding/xml"\n	"strings"\n)')]),
("m9t","C19",[('xmlGroup.go','	if opt.Choice.Len() > 0 {\n		group.Plural = group.Plural || opt.Choice.Peek().(*Choice).Plural\n	}\n','')]),
("m9u","C22",[('parser.go','	opt.Choice = NewStack()\n','	if opt.Choice == nil {\n		opt.Choice = NewStack()\n	}\n')]),
("m9v","C03",[('genTypeScript.go','	for _, ele := range gen.ProtoTree {\n		if ele == nil {\n			continue\n		}\n','	for i, ele := range gen.ProtoTree {\n		if ele == nil || i > 0 && ele == gen.ProtoTree[i-1] {\n			continue\n		}\n')]),
("m9w","C03",[('genRust.go','	for _, ele := range gen.ProtoTree {\n		if ele == nil {\n			continue\n		}\n','	for i := range gen.ProtoTree {\n		ele := gen.ProtoTree[len(gen.ProtoTree)-1-i]\n		if ele == nil {\n			continue\n		}\n')]),
("m9x","C28",[('genJava.go','	defer f.Close()\n	packageName','	packageName'),('genJava.go','gen.Field))); err != nil {\n		return err\n	}','gen.Field))); err != nil {\n		return err\n	}\n	defer f.Close()')]),
("m9y","C15",[('utils.go','	return k[i].value < k[j].value || (k[i].value == k[j].value && strings.Compare(k[i].key, k[j].key) > 0)','	return k[i].value < k[j].value || (k[i].value == k[j].value && len(k[i].key) < len(k[j].key))')]),
("m9z","C04",[('utils.go','	for k, v := range toSort {\n		pl = append(pl, kvPair{k, v})','	for k, v := range toSort {\n		if k == v {\n			continue\n		}\n		pl = append(pl, kvPair{k, v})')]),
("m9A","C05",[('genC.go','	if strings.HasSuffix(dataType, "[]") {\n		return strings.TrimSuffix(dataType, "[]"), true','	if strings.HasSuffix(dataType, "[]") {\n		return strings.TrimRight(dataType, "[]"), len(dataType) > 6')]),
("m9B","C01",[('parser.go','	if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok {','	if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok && !strings.HasPrefix(value, "tns:") {')]),
("m9C","C01",[('genGo.go','	"uint64":        true,\n','')]),
("m9D","C29",[('genJava.go','	if packageName == "" {\n		packageName = "schema"\n	}\n','	if packageName == "" || strings.Contains(packageName, "-") {\n		packageName = "schema"\n	}\n')]),
("m9E","C29",[('genGo.go','	if packageName == "" {\n		packageName = "schema"\n	}\n','	if packageName == "" || packageName == "main" {\n		packageName = "schema"\n	}\n')]),
("m9F","C33",[('parser.go','rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator))','strings.HasPrefix(rel, "..")')]),
("m9G","C34",[('schema.go','	opt.LocalNameNSMap["xml"] = xmlNamespace\n','')]),
("m9H","C34",[('utils.go','	if err != nil || u.Scheme == "" || u.Host == "" {','	if err != nil || u.Scheme == "" {')]),
]
