M=[
# C01
("C01a","C01",[("utils.go",'"unsignedInt":        {"uint32", "number", "unsigned int", "Long", "u32"}','"unsignedInt":        {"uint32", "number", "unsigned int", "Integer", "u32"}')]),
("C01b","C01",[("utils.go",'"gYearMonth":         {"string", "string"','"gYearMonth":         {"string", "number"')]),
("C01c","C01",[("genRust.go",'		"u16":         true,\n','')]),
("C01d","C01",[("parser.go",'getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok {\n		valueType = buildType\n		return','getBuildInTypeByLang(strings.TrimPrefix(strings.TrimPrefix(value, "xs:"), "xsd:"), opt.Lang); ok {\n		valueType = buildType\n		return')]),
("C01e","C01",[("utils.go",'if buildInTypes, ok = BuildInTypes[value]; !ok {','if buildInTypes, ok = BuildInTypes[strings.TrimSuffix(value, "S")]; !ok {')]),
("C01f","C01",[("genGo.go",'	"uint16":        true,\n','')]),
("C01g","C01",[("utils.go",'	buildType = buildInTypes[supportLang[lang]]\n','	buildType = buildInTypes[supportLang[lang]]\n	if lang == "Go" && strings.HasPrefix(buildType, "u") {\n		buildType = "uint"\n	}\n')]),
# C02
("C02a","C02",[("cmd/xgen/xgen.go",'	"TypeScript": true,\n','	"Typescript": true,\n	"TypeScript": true,\n')]),
("C02b","C02",[("genJava.go",'gen.FileWithExtension(".java")','gen.FileWithExtension(".jav")')]),
("C02c","C02",[("genC.go",'funcName := fmt.Sprintf("C%s"','funcName := fmt.Sprintf("Go%s"')]),
("C02d","C02",[("genTypeScript.go",'TypeScriptAttributeGroup(v','TypescriptAttributeGroup(v')]),
("C02e","C02",[("parser.go",'funcName := fmt.Sprintf("Gen%s", MakeFirstUpperCase(opt.Lang))','funcName := fmt.Sprintf("Gen%s", strings.Title(strings.ToLower(opt.Lang)))')]),
# C03
("C03a","C03",[("genJava.go",'		if ele == nil {\n			continue\n','		if ele == nil {\n			break\n')]),
("C03b","C03",[("genRust.go",'			gen.StructAST[v.Name] = content\n			gen.Field += fmt.Sprintf("\\n#[derive','			gen.StructAST[v.Name] = content\n			gen.Field = fmt.Sprintf("\\n#[derive')]),
("C03c","C03",[("genC.go",'func (gen *CodeGenerator) CAttribute(v *Attribute) {\n	if _, ok := gen.StructAST[v.Name]; !ok {','func (gen *CodeGenerator) CAttribute(v *Attribute) {\n	if _, ok := gen.StructAST[v.Type]; !ok {')]),
("C03d","C03",[("genGo.go",'	if v.Union && len(v.MemberTypes) > 0 {\n','	if v.Union {\n		if len(v.MemberTypes) == 0 {\n			return\n		}\n')]),
("C03e","C03",[("genTypeScript.go",'		funcName := fmt.Sprintf("TypeScript%s"','		if a, ok := ele.(*Attribute); ok && a.Optional {\n			continue\n		}\n		funcName := fmt.Sprintf("TypeScript%s"')]),
# C04
("C04a","C04",[("genC.go",'		for _, group := range v.Groups {','		for i, group := range v.Groups {\n			if i > 0 && group.Name == v.Groups[i-1].Name {\n				continue\n			}',1)]),
("C04b","C04",[("genJava.go",'fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))','fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Name), gen.ProtoTree))',2)]),
("C04c","C04",[("genRust.go",'			fieldName := genRustFieldName(group.Name)','			fieldName := genRustFieldName(group.Ref)',2)]),
("C04d","C04",[("genGo.go",'		for _, group := range v.Groups {\n			var plural','		for _, group := range v.Groups {\n			if len(v.Elements) > 0 {\n				break\n			}\n			var plural',2)]),
("C04e","C04",[("genTypeScript.go",'		for _, attribute := range v.Attributes {','		for _, attribute := range v.Attributes[:len(v.Attributes)/2*2] {',2)]),
# C05
("C05a","C05",[("genJava.go",'			if group.Plural {','			if group.Plural && group.Ref != "" {',1)]),
("C05b","C05",[("genC.go",'if ok || group.Plural {','if ok && group.Plural {',2)]),
("C05c","C05",[("genRust.go",'	if v.List {','	if v.List && v.Base != "" {')]),
("C05d","C05",[("genGo.go",'			content := fmt.Sprintf(" []%s\\n", fieldType)','			content := fmt.Sprintf(" []%s\\n", strings.TrimPrefix(fieldType, "*"))')]),
("C05e","C05",[("genTypeScript.go",'getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree), v.Plural))','getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree), !v.Plural))',1)]),
# C06
("C06a","C06",[("genJava.go",'			if attribute.Optional {','			if attribute.Optional || attribute.Plural {',2)]),
("C06b","C06",[("genC.go",'			if attribute.Optional {','			if attribute.Optional && attribute.Doc == "" {',2)]),
("C06c","C06",[("genGo.go",'''			var optional string
			if attribute.Optional {
				optional = `,omitempty`
			}
			fieldType :=''','''			var optional string
			if attribute.Optional && !strings.HasPrefix(attribute.Type, "[]") {
				optional = `,omitempty`
			}
			fieldType :=''')]),
("C06d","C06",[("genTypeScript.go",'			var optional string\n			if attribute.Optional {','			if attribute.Optional {',2),("genTypeScript.go",'		content := " {\\n"\n		for _, attribute := range v.Attributes {','		content := " {\\n"\n		var optional string\n		for _, attribute := range v.Attributes {')]),
# C07
("C07a","C07",[("genGo.go",'genGoFieldName(element.Name, false), plural, fieldType, element.Name)','genGoFieldName(element.Name, false), plural, fieldType, trimNSPrefix(element.Name))')]),
("C07b","C07",[("genJava.go",'content += fmt.Sprintf("\\t@XmlElement(required = true, name = \\"%s\\")\\n\\tprotected %s %s;\\n", element.Name, fieldType','content += fmt.Sprintf("\\t@XmlElement(required = true, name = \\"%s\\")\\n\\tprotected %s %s;\\n", strings.TrimSpace(element.Name), fieldType',2)]),
("C07c","C07",[("genRust.go",'pub %s: Vec<%s>,\\n", group.Name, fieldName, fieldType)','pub %s: Vec<%s>,\\n", fieldName, fieldName, fieldType)',2)]),
("C07d","C07",[("genGo.go",'`xml:\\"%s,attr%s\\"`\\n", genGoFieldName(attribute.Name, false), gen.goFieldType','`xml:\\"%s%s,attr\\"`\\n", genGoFieldName(attribute.Name, false), gen.goFieldType')]),
("C07e","C07",[("genGo.go",'`xml:\\"%s\\"`\\n", v.Name)','`xml:\\"%s\\"`\\n", fieldName)',4)]),
# C08
("C08a","C08",[("genRust.go",'			if isRustBuiltInType(v.Base) {','			if isRustBuiltInType(v.Base) && len(v.Elements) == 0 {')]),
("C08b","C08",[("genJava.go",'if len(v.Base) > 0 && !isBuiltInJavaType(v.Base) {','if len(v.Base) > 0 && !isBuiltInJavaType(v.Base) && len(v.Attributes)+len(v.Elements) > 0 {')]),
("C08c","C08",[("genGo.go",'		if len(v.Base) > 0 {\n','		if len(v.Base) > 1 && v.Base != v.Name {\n')]),
("C08d","C08",[("genTypeScript.go",'		if len(v.Base) > 0 && isBuiltInTypeScriptType(v.Base) {','		if len(v.Base) > 0 && len(v.Elements) == 0 && isBuiltInTypeScriptType(v.Base) {')]),
# C09
("C09a","C09",[("genGo.go",'	case "time.Time":\n		gen.ImportTime = true\n','	case "time.Time":\n		gen.ImportTime = !gen.ImportEncodingXML\n')]),
("C09b","C09",[("genGo.go",'fieldType := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))\n			content := fmt.Sprintf(" []','fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))\n			content := fmt.Sprintf(" []')]),
("C09c","C09",[("genGo.go",'		if fieldName != v.Name {\n			gen.ImportEncodingXML = true\n','		gen.ImportEncodingXML = fieldName != v.Name\n		if fieldName != v.Name {\n',2)]),
("C09d","C09",[("genGo.go",'	if gen.ImportTime {','	if gen.ImportTime && strings.Contains(gen.Field, "\\ttime.Time\\t") {')]),
]
