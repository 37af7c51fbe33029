M=[
("m11a","C07",[('genGo.go','genGoFieldName(attribute.Name, false), fieldType, attribute.Name, optional)','genGoFieldName(attribute.Name, false), fieldType, trimNSPrefix(attribute.Name), optional)')]),
("m11b","C27",[('cmd/xgen/xgen.go','Package:             cfg.Pkg','Package:             strings.ToLower(cfg.Pkg)'),('cmd/xgen/xgen.go','	"os"\n','	"os"\n	"strings"\n')]),
("m11c","C04",[('genJava.go','		for _, group := range v.Groups {\n','		for _, group := range v.Groups {\n			if group.Ref == v.Name {\n				continue\n			}\n')]),
("m11d","C16",[('parser.go','	fi, err = os.Stat(xsdFile)\n	if err != nil {\n		return\n	}\n','	fi, err = os.Stat(xsdFile)\n	if os.IsNotExist(err) {\n		return trimNSPrefix(value), nil\n	}\n	if err != nil {\n		return\n	}\n')]),
("m11e","C16",[('utils.go','			if err != nil {\n				return err\n			}\n			files','			if err != nil {\n				if os.IsPermission(err) {\n					return filepath.SkipDir\n				}\n				return err\n			}\n			files')]),
("m11f","C34",[('xmlInclude.go','filepath.Join(opt.FileDir','filepath.Join(opt.InputDir')]),
("m11g","C34",[('schema.go','			if isValidURL(ele.Value) {','			if isValidURL(ele.Value) || currentNS == xmlNamespace {')]),
("m11h","C20",[('xmlUnion.go','MemberTypes[trimNSPrefix(memberType)], err','MemberTypes[strings.TrimPrefix(memberType, "xs:")], err')]),
("m11i","C20",[('xmlAttributeGroup.go','	if opt.ComplexType.Len() > 0 {\n','	if opt.ComplexType.Len() > 0 {\n		for _, known := range opt.ComplexType.Peek().(*ComplexType).AttributeGroup {\n			if known.Ref != "" && known.Ref == attributeGroup.Ref {\n				return\n			}\n		}\n')]),
("m11j","C35",[('xmlCharData.go','	ele = strings.TrimSpace(ele)\n','	ele = strings.Trim(ele, " \\t\\r\\n.")\n')]),
("m11k","C35",[('xmlCharData.go','	if opt.InElement != "" {\n','	if opt.InElement != "" && opt.InGroup == 0 {\n')]),
("m11l","C35",[('xmlElement.go','			element.Plural = element.Plural || e.Plural\n','			element.Plural = element.Plural || e.Plural\n			element.Doc = e.Doc\n')]),
("m11m","C10",[('utils.go','"\\r", newLine, ','')]),
("m11n","C31",[('genTypeScript.go','		for _, enum := range v.Restriction.Enum {\n','		for i, enum := range v.Restriction.Enum {\n			if i > 0 && strings.EqualFold(enum, v.Restriction.Enum[i-1]) {\n				continue\n			}\n')]),
("m11o","C31",[('genTypeScript.go','			case "number":\n				content += fmt.Sprintf("\\tEnum%s = %s,\\n", enum, enum)','			case "number":\n				content += fmt.Sprintf("\\tEnum%s = %s,\\n", enum, strings.TrimLeft(enum, "0"))')]),
("m11p","C12",[('genTypeScript.go','		if count := fieldNameCount[fieldName]; count != 1 {','		if count := fieldNameCount[fieldName]; count > 2 {')]),
("m11q","C12",[('genJava.go','	fieldNameCount = make(map[string]int)\n','	if fieldNameCount == nil {\n		fieldNameCount = make(map[string]int)\n	}\n')]),
("m11r","C05",[('genRust.go','			if group.Plural {','			if group.Plural && len(v.Elements) > 0 {')]),
("m11s","C06",[('genTypeScript.go','			if attribute.Optional {\n				optional = ` | null`\n			}\n			fieldType','			if attribute.Optional && attribute.Default == "" {\n				optional = ` | null`\n			}\n			fieldType')]),
("m11t","C11",[('genRust.go','strings.NewReplacer("-", "", "_", "").Replace(structName)','strings.NewReplacer("--", "", "_", "").Replace(structName)')]),
("m11u","C13",[('genTypeScript.go','	fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1))','	fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "", 1))')]),
("m11v","C24",[('parser.go','		opt.ParseFileMap[fileKey] = opt.ProtoTree\n	}\n	opt.ProtoTree = make','		if opt.IncludeMap == nil {\n			opt.ParseFileMap[fileKey] = opt.ProtoTree\n		}\n	}\n	opt.ProtoTree = make')]),
("m11w","C22",[('parser.go','	opt.InUnion = false\n	opt.InAttributeGroup','	opt.InAttributeGroup')]),
("m11x","C30",[('parser.go','	decoder := xml.NewDecoder(xmlFile)\n','	decoder := xml.NewDecoder(io.MultiReader(xmlFile, strings.NewReader("")))\n')]),
("m11y","C33",[('parser.go','filepath.Join(opt.OutputDir, opt.relativePath())','filepath.Join(opt.OutputDir, strings.TrimSuffix(opt.relativePath(), ".xml"))')]),
("m11z","C21",[('parser.go','	if valueType != trimNSPrefix(value) && valueType != "" {\n		return\n	}\n	if opt.Extract','	if valueType != trimNSPrefix(value) && valueType != "" && valueType != value {\n		return\n	}\n	if opt.Extract')]),
("m11A","C26",[('parser.go','	if err = PrepareOutputDir(filepath.Dir(path)); err != nil {','	if err = PrepareOutputDir(filepath.Dir(filepath.Dir(path))); err != nil {'),]),
("m11B","C01",[('utils.go','	"unsignedShort":      {"uint16", "number", "unsigned int"','	"unsignedShort":      {"uint16", "number", "int"')]),
("m11C","C09",[('genGo.go','		if fieldName != v.Name {\n				gen.ImportEncodingXML = true\n','		if fieldName != v.Name {\n				gen.ImportEncodingXML = len(v.MemberTypes) > 0 || gen.ImportTime\n')]),
("m11E","C02",[('parser.go','MakeFirstUpperCase(opt.Lang))\n		if err','strings.Title(strings.ToLower(opt.Lang)))\n		if err')]),
("m11F","C03",[('genC.go','	for _, ele := range gen.ProtoTree {\n','	for i, ele := range gen.ProtoTree {\n		if i > 4095 {\n			break\n		}\n')]),
("m11G","C18",[('xmlExtension.go','				if complexType.Name == "" {\n','				if complexType.Name == "" && attr.Name.Space == "" {\n')]),
("m11H","C19",[('xmlElement.go','maxOccurs > 1','maxOccurs > 1 && maxOccurs != 999')]),
("m11I","C32",[('stack.go','func (stack *Stack) Push(value interface{}) {\n','func (stack *Stack) Push(value interface{}) {\n	if e := stack.list.Back(); e != nil && e.Value == value {\n		return\n	}\n')]),
]
