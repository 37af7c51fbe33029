M=[
("C14c","C14",[("genRust.go",'		fieldName += "_attr"','		fieldName = strings.TrimSuffix(fieldName+"_attr", "_attr")')]),
("C15b","C15",[("utils.go","\t\"strings\"\n","\t\"strings\"\n\n"),("utils.go",'strings.Compare(k[i].key, k[j].key) > 0','len(k[i].key) > len(k[j].key)')]),
("C20b","C20",[("xmlGroup.go",'		if g.Name == group.Name {','		if strings.EqualFold(g.Name, group.Name) {'),("xmlGroup.go",'	"strconv"','	"strconv"\n	"strings"')]),
("C20c","C20",[("xmlAttributeGroup.go",'	if opt.AttributeGroup.Len() > 0 {','	if opt.AttributeGroup.Len() == 1 {')]),
("C20g","C20",[("xmlElement.go",'	if opt.Element.Len() > 0 && opt.ComplexType.Len() == 0 {','	if opt.Element.Len() > 0 && opt.ComplexType.Len() == 0 && opt.InGroup == 0 {')]),
("C20h","C20",[("xmlEnumeration.go",'	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {','	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 && opt.ComplexType.Len() == 0 {')]),
("C20i","C20",[("xmlUnion.go",'.MemberTypes[trimNSPrefix(memberType)], err','.MemberTypes[memberType], err')]),
("C20j","C20",[("xmlRestriction.go",'.Elements)-1] = *opt','.Elements)-1].Type = opt.Element.Peek().(*Element).Name //*opt')]),
# C21
("C21a","C21",[("utils.go",'if !v.List && !v.Union && v.Name == name {','if !v.List && v.Name == name {')]),
("C21b","C21",[("utils.go",'			if v.Name == name {\n				return v.Type\n			}\n		}\n	}\n	return name','			if v.Name == name || trimNSPrefix(v.Name) == name {\n				return v.Type\n			}\n		}\n	}\n	return name')]),
("C21c","C21",[("utils.go",'	if len(split) == 2 {\n		name = split[1]','	if len(split) > 1 {\n		name = split[len(split)-1]')]),
("C21d","C21",[("parser.go",'if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) {','if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != value {')]),
("C21e","C21",[("parser.go",'	if valueType != trimNSPrefix(value) && valueType != "" {\n		return\n	}\n	if opt.Extract','	if valueType != "" {\n		return\n	}\n	if opt.Extract')]),
("C21f","C21",[("utils.go",'		case *SimpleType:\n			if !v.List && !v.Union && v.Name == name {','		case *SimpleType:\n			if !v.List && !v.Union && strings.EqualFold(v.Name, name) {')]),
# C22
("C22a","C22",[("parser.go",'	opt.InGroup = 0\n','')]),
("C22b","C22",[("parser.go",'	opt.Choice = NewStack()\n','	if opt.Choice == nil {\n		opt.Choice = NewStack()\n	}\n')]),
("C22c","C22",[("parser.go",'			IncludeMap:          make(map[string]bool),\n			LocalNameNSMap:      make(map[string]string),\n			NSSchemaLocationMap: make(map[string]string),\n			ParseFileList:       opt.ParseFileList,','			IncludeMap:          make(map[string]bool),\n			LocalNameNSMap:      opt.LocalNameNSMap,\n			NSSchemaLocationMap: make(map[string]string),\n			ParseFileList:       opt.ParseFileList,')]),
("C22d","C22",[("parser.go",'	opt.ProtoTree = make([]interface{}, 0)\n\n','	opt.ProtoTree = opt.ProtoTree[:0]\n\n')]),
# C23
("C23a","C23",[("utils.go",'func getNSPrefix(str string) (ns string) {','var lastPrefix string\n\nfunc getNSPrefix(str string) (ns string) {\n	defer func() { lastPrefix = ns }()')]),
("C23b","C23",[("utils.go",'	buildType = buildInTypes[supportLang[lang]]\n','	buildType = buildInTypes[supportLang[lang]]\n	if lang == "Go" && value == "anyType" {\n		buildInTypes[0] = buildType\n	}\n')]),
# C24
("C24a","C24",[("parser.go",'	if !opt.Extract {\n		opt.ParseFileList[fileKey] = true\n		opt.ParseFileMap[fileKey] = opt.ProtoTree\n	}\n	opt.ProtoTree = make','	if !opt.Extract {\n		opt.ParseFileList[fileKey] = true\n	}\n	opt.ProtoTree = make')]),
("C24b","C24",[("parser.go",'	if opt.Extract {\n		return\n	}\n	schemaLocation','	if opt.Extract && len(opt.NSSchemaLocationMap) == 0 {\n		return\n	}\n	schemaLocation')]),
("C24c","C24",[("parser.go",'depXSDSchema, ok := opt.ParseFileMap[xsdFile]\n	if !ok {','depXSDSchema, ok := opt.ParseFileMap[xsdFile]\n	if !ok || len(depXSDSchema) == 0 {')]),
("C24d","C24",[("parser.go",'fileKey := filepath.Clean(opt.FilePath)','fileKey := filepath.Base(opt.FilePath)')]),
# C25
("C25a","C25",[("parser.go",'			Package:             opt.Package,\n			IncludeMap','			Package:             filepath.Base(filepath.Dir(xsdFile)),\n			IncludeMap')]),
("C25b","C25",[("parser.go",'			InputDir:            opt.InputDir,\n			OutputDir','			InputDir:            opt.FileDir,\n			OutputDir')]),
# C26
("C26a","C26",[("utils.go",'os.MkdirAll(path, 0755); err','os.MkdirAll(path, 0755); err == nil {\n			os.Chmod(path, 0777)\n		} else if err')]),
("C26b","C26",[("genRust.go",'	f, err := os.Create(','	os.Remove(gen.FileWithExtension(".rs.bak"))\n	f, err := os.Create(')]),
("C26c","C26",[("schema.go",'				// TODO: fetch remote schema\n','				if b, err := fetchSchema(ele.Value); err == nil && opt.RemoteSchema != nil {\n					opt.RemoteSchema[ele.Value] = b\n				}\n')]),
# C27
("C27a","C27",[("cmd/xgen/xgen.go",'file, err.Error())\n			os.Exit(1)','file, err.Error())\n			if len(files) == 1 {\n				os.Exit(1)\n			}')]),
("C27b","C27",[("cmd/xgen/xgen.go",'	if *oPtr != "" {\n		Cfg.O = *oPtr','	if *oPtr != "" {\n		Cfg.O = strings.TrimSuffix(*oPtr, "/")'),("cmd/xgen/xgen.go",'	"os"\n','	"os"\n	"strings"\n')]),
("C27c","C27",[("utils.go",'			files = append(files, fp)\n','			if strings.HasPrefix(filepath.Base(fp), ".") {\n				return nil\n			}\n			files = append(files, fp)\n')]),
("C27d","C27",[("cmd/xgen/xgen.go",'	for _, file := range files {','	for i, file := range files {\n		if i > 0 && file == files[i-1] || file == cfg.O {\n			continue\n		}')]),
("C27e","C27",[("cmd/xgen/xgen.go",'	if *langPtr == "" {\n		fmt.Println("must specify the language of generated code (Go/C/Java/Rust/TypeScript)")\n		os.Exit(1)','	if *langPtr == "" {\n		fmt.Println("must specify the language of generated code (Go/C/Java/Rust/TypeScript)")\n		os.Exit(0)')]),
# C28
("C28a","C28",[("parser.go",'	defer xmlFile.Close()\n','	if !opt.Extract {\n		defer xmlFile.Close()\n	}\n')]),
("C28b","C28",[("genJava.go",'	defer f.Close()\n','')]),
# C29
("C29a","C29",[("genGo.go",'fmt.Sprintf("%s\\n\\npackage %s\\n%s%s", copyright, packageName, importPackage, gen.Field)','fmt.Sprintf("%s\\n\\npackage %s\\n%s%s", copyright, strings.ToLower(packageName), importPackage, gen.Field)')]),
("C29b","C29",[("genJava.go",'	if packageName == "" {','	if packageName == "" || strings.Contains(packageName, ".") {')]),
("C29c","C29",[("genC.go",'fmt.Sprintf("%s\\n%s", copyright, gen.Field)','fmt.Sprintf("#pragma once\\n%s\\n%s", copyright, gen.Field)')]),
# C30
("C30a","C30",[("parser.go",'	decoder.CharsetReader = charset.NewReaderLabel\n','	if !opt.Extract {\n		decoder.CharsetReader = charset.NewReaderLabel\n	}\n')]),
("C30b","C30",[("parser.go",'	decoder.CharsetReader = charset.NewReaderLabel\n','	decoder.CharsetReader = func(label string, input io.Reader) (io.Reader, error) { return input, nil }\n'),("parser.go",'\n	"golang.org/x/net/html/charset"\n','')]),
# C31
("C31a","C31",[("genTypeScript.go",'			switch baseType {\n			case "string":','			switch baseType {\n			case "boolean", "number":\n				content += fmt.Sprintf("\\tEnum%s = \'%s\',\\n", enum, enum)\n			case "string":'),("genTypeScript.go",'			case "number":\n				content += fmt.Sprintf("\\tEnum%s = %s,\\n", enum, enum)\n','')]),
("C31b","C31",[("xmlEnumeration.go",'.Restriction.Enum = append(opt.SimpleType.Peek().(*SimpleType).Restriction.Enum, attr.Value)','.Restriction.Enum = append([]string{attr.Value}, opt.SimpleType.Peek().(*SimpleType).Restriction.Enum...)')]),
("C31c","C31",[("genTypeScript.go",'		for _, enum := range v.Restriction.Enum {\n','		seen := ""\n		for _, enum := range v.Restriction.Enum {\n			if strings.Contains(seen, enum) {\n				continue\n			}\n			seen += enum + "|"\n')]),
# C32
("C32a","C32",[("stack.go",'	e := stack.list.Back()\n	if e != nil {\n		return e.Value','	e := stack.list.Front()\n	if e != nil {\n		return e.Value')]),
("C32b","C32",[("stack.go",'	stack.list.PushBack(value)','	if value != nil {\n		stack.list.PushBack(value)\n	}')]),
("C32c","C32",[("stack.go",'	return stack.list.Len() == 0','	return stack.list.Len() <= 1')]),
# C33
("C33a","C33",[("parser.go",'strings.TrimPrefix(opt.FilePath, opt.InputDir)','strings.Replace(opt.FilePath, opt.InputDir, "", -1)')]),
("C33b","C33",[("genGo.go",'	return gen.File + extension','	return strings.TrimSuffix(gen.File, ".xsd") + extension')]),
("C33c","C33",[("parser.go",'strings.TrimPrefix(opt.FilePath, opt.InputDir)','strings.TrimLeft(opt.FilePath, opt.InputDir)')]),
("C33d","C33",[("parser.go",'path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))','path := filepath.Join(opt.OutputDir, strings.ToLower(strings.TrimPrefix(opt.FilePath, opt.InputDir)))')]),
]
