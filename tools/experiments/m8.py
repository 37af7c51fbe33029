M=[
# file handling
("m8a","C15",[('genGo.go','os.Create(gen.FileWithExtension(".go"))','os.OpenFile(gen.FileWithExtension(".go"), os.O_CREATE|os.O_WRONLY, 0644)')]),
("m8b","C26",[('genC.go','	f, err := os.Create(gen.FileWithExtension(".h"))','	os.Remove(gen.FileWithExtension(".h"))\n	f, err := os.Create(gen.FileWithExtension(".h"))')]),
("m8c","C33",[('genJava.go','os.Create(gen.FileWithExtension(".java"))','os.OpenFile(gen.FileWithExtension(".java"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)')]),
("m8d","C33",[('genGo.go','	if strings.HasSuffix(gen.File, extension) {\n		return gen.File\n	}\n','	if strings.HasSuffix(strings.ToLower(gen.File), extension) {\n		return gen.File\n	}\n')]),
("m8e","C33",[('parser.go','	rel, err := filepath.Rel(opt.InputDir, opt.FilePath)','	rel, err := filepath.Rel(opt.InputDir, filepath.Clean(strings.TrimSpace(opt.FilePath)))')]),
("m8f","C28",[('parser.go','	defer xmlFile.Close()\n	fileKey','	fileKey'),('parser.go','	decoder := xml.NewDecoder(xmlFile)\n','	decoder := xml.NewDecoder(xmlFile)\n	defer xmlFile.Close()\n')]),
("m8g","C16",[('utils.go','			if err != nil {\n				return err\n			}\n			files','			if os.IsPermission(err) {\n				return filepath.SkipDir\n			}\n			if err != nil {\n				return err\n			}\n			files')]),
("m8h","C16",[('parser.go','		if token, err = decoder.Token(); err == io.EOF {','		if token, err = decoder.Token(); err == io.EOF || err == io.ErrUnexpectedEOF {')]),
("m8i","C16",[('parser.go','	decoder.CharsetReader = charset.NewReaderLabel\n','	decoder.CharsetReader = charset.NewReaderLabel\n	decoder.Strict = false\n')]),
("m8j","C30",[('parser.go','	decoder.CharsetReader = charset.NewReaderLabel\n','	if !opt.Extract {\n		decoder.CharsetReader = charset.NewReaderLabel\n	}\n')]),
("m8k","C16",[('xmlUnion.go','				if err != nil {\n					return\n				}\n			}\n','			}\n			if err != nil {\n				return\n			}\n')]),
# references
("m8l","C21",[('utils.go','			if v.Name == name {\n				return v.Type\n			}\n		case *Element','			if v.Name == name && !v.Plural {\n				return v.Type\n			}\n		case *Element')]),
("m8m","C21",[('utils.go','	if len(split) == 2 {\n		name = split[1]','	if len(split) >= 2 {\n		name = split[len(split)-1]')]),
("m8n","C21",[('utils.go','			if !v.List && !v.Union && v.Name == name {\n				return v.Base','			if !v.List && !v.Union && v.Name == name && v.Base != "" {\n				return v.Base')]),
("m8o","C21",[('utils.go','			if !v.List && !v.Union && v.Name == name {\n				return v.Base','			if !v.List && v.Name == name {\n				return v.Base')]),
("m8p","C25",[('parser.go','			Package:             opt.Package,\n','			Package:             strings.ToLower(opt.Package),\n')]),
("m8q","C25",[('parser.go','			InputDir:            opt.InputDir,\n			OutputDir:           opt.OutputDir,\n			Extract:             false,','			InputDir:            opt.FileDir,\n			OutputDir:           opt.OutputDir,\n			Extract:             false,')]),
("m8r","C24",[('parser.go','	if !opt.Extract {\n		opt.ParseFileList[fileKey] = true\n		opt.ParseFileMap[fileKey] = opt.ProtoTree\n	}\n	opt.ProtoTree = make','	opt.ProtoTree = make')]),
("m8s","C34",[('xmlInclude.go','filepath.Join(opt.FileDir, ele.Value)','filepath.Join(opt.FileDir, filepath.Base(ele.Value))')]),
("m8t","C34",[('schema.go','			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {\n				continue\n			}\n','')]),
("m8u","C34",[('schema.go','		if ele.Name.Space == "" && ele.Name.Local == "xmlns" {','		if _, ok := opt.LocalNameNSMap[""]; !ok && ele.Name.Local == "targetNamespace" || ele.Name.Space == "" && ele.Name.Local == "xmlns" {')]),
# decls
("m8v","C20",[('xmlGroup.go','		if g.Name == group.Name {','		if g.Name == group.Name || g.Ref == group.Ref {')]),
("m8w","C20",[('xmlAttribute.go','	if opt.Attribute.Len() == 0 {\n		return\n	}\n','	if opt.Attribute.Len() == 0 || ele.Name.Local != opt.InElement {\n		return\n	}\n')]),
("m8x","C18",[('xmlList.go','			if opt.SimpleType.Peek().(*SimpleType).Base, err','			if opt.SimpleType.Peek().(*SimpleType).Base != "" {\n				break\n			}\n			if opt.SimpleType.Peek().(*SimpleType).Base, err')]),
("m8y","C20",[('xmlUnion.go','	opt.SimpleType.Peek().(*SimpleType).Union = true\n	opt','	opt.SimpleType.Peek().(*SimpleType).Union = len(ele.Attr) > 0\n	opt')]),
("m8z","C35",[('xmlCharData.go','			if l > 0 {\n				opt.Group.Peek().(*Group).Elements[l-1].Doc = ele\n				return\n			}\n','			if l > 0 {\n				opt.Group.Peek().(*Group).Elements[0].Doc = ele\n				return\n			}\n')]),
("m8A","C35",[('xmlComplexType.go','				c.Name, c.Doc = e.Name, e.Doc\n			}\n		}\n		opt','				c.Name = e.Name\n			}\n		}\n		opt')]),
("m8B","C35",[('utils.go','"\\u2029", newLine, "\\t", "")','"\\u2029", newLine, "\\t", "", "//", "")')]),
("m8C","C07",[('genGo.go','content += fmt.Sprintf("\\t%s\\t%s%s\\t`xml:\\"%s\\"`\\n", genGoFieldName(element.Name, false), plural, fieldType, element.Name)','content += fmt.Sprintf("\\t%s\\t%s%s\\t`xml:\\"%s\\"`\\n", genGoFieldName(element.Name, false), plural, fieldType, trimNSPrefix(element.Name))')]),
("m8D","C07",[('genGo.go','			if fieldName != v.Name {\n				gen.ImportEncodingXML','			if !strings.EqualFold(fieldName, v.Name) {\n				gen.ImportEncodingXML')]),
("m8E","C09",[('genGo.go','	case "time.Time":\n		gen.ImportTime = true\n	case "xml.Name":','	case "time.Time":\n		gen.ImportTime = gen.Field != ""\n	case "xml.Name":')]),
("m8F","C14",[('genRust.go','	if _, ok := rustKeywords[fieldName]; ok {\n		fieldName += "_attr"','	if _, ok := rustKeywords[fieldName]; ok && len(name) == len(fieldName) && name == fieldName {\n		fieldName += "_attr"')]),
("m8G","C14",[('genRust.go','	fieldName = ToSnakeCase(strings.Replace(fieldName, "-", "", -1))\n	if _, ok := rustKeywords[fieldName]; ok {\n		fieldName += "_attr"\n	}\n','	fieldName = strings.Replace(fieldName, "-", "", -1)\n	if _, ok := rustKeywords[fieldName]; ok {\n		fieldName += "_attr"\n	}\n	fieldName = ToSnakeCase(fieldName)\n')]),
("m8H","C08",[('genTypeScript.go','return builtIn || typeName == "any" || strings','return builtIn || strings.ToLower(typeName) == "any" || strings')]),
("m8I","C08",[('genRust.go','				fieldName := genRustFieldName(fieldType)\n				// If','				fieldName := genRustFieldName(v.Name)\n				// If')]),
("m8J","C31",[('genTypeScript.go','			case "number":\n				content += fmt.Sprintf("\\tEnum%s = %s,\\n", enum, enum)','			case "number":\n				content += fmt.Sprintf("\\tEnum%s = %s,\\n", enum, strings.TrimLeft(enum, "0"))')]),
("m8K","C27",[('cmd/xgen/xgen.go','			fmt.Printf("process error on %s: %s\\r\\n", file, err.Error())\n			os.Exit(1)\n','			fmt.Printf("process error on %s: %s\\r\\n", file, err.Error())\n			defer os.Exit(1)\n')]),
("m8L","C27",[('cmd/xgen/xgen.go','			ParseFileList:       make(map[string]bool),\n','			ParseFileList:       parsed,\n'),('cmd/xgen/xgen.go','	for _, file := range files {\n','	parsed := make(map[string]bool)\n	for _, file := range files {\n		if parsed[file] {\n			continue\n		}\n')]),
("m8M","C23",[('utils.go','	var supportLang = map[string]int{','	lastLang = lang\n	var supportLang = map[string]int{'),('utils.go','func getBuildInTypeByLang','var lastLang string\n\nfunc getBuildInTypeByLang')]),
("m8N","C22",[('parser.go','	opt.CurrentEle = ""\n	opt.InGroup = 0\n','	opt.CurrentEle = ""\n')]),
("m8O","C05",[('genTypeScript.go','	if plural {\n		fieldType','	if plural && fieldType != "any" {\n		fieldType')]),
("m8P","C06",[('genJava.go','			var required = ", required = true"\n			if attribute.Optional {\n				required = ""\n			}\n			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))\n			content += fmt.Sprintf("\\t@XmlAttribute(name = \\"%s\\"%s)\\n\\tprotected %s %sAttr;\\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))\n		}\n		for','			var required = ", required = true"\n			if attribute.Optional || attribute.Default != "" {\n				required = ""\n			}\n			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))\n			content += fmt.Sprintf("\\t@XmlAttribute(name = \\"%s\\"%s)\\n\\tprotected %s %sAttr;\\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))\n		}\n		for')]),
]
