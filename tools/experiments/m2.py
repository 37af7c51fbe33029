M=[
# C10
("C10a","C10",[("utils.go",'strings.NewReplacer(','strings.NewReplacer("\\t", " ", ',1)]),
# C11
("C11a","C11",[("genTypeScript.go",'content += fmt.Sprintf("\\tValue: %s;\\n", fieldType)','content += fmt.Sprintf("\\tValue: %s,\\n", fieldType)',1)]),
("C11b","C11",[("genC.go",'			content += "}"\n			gen.StructAST','			content += "};"\n			gen.StructAST')]),
("C11c","C11",[("genRust.go",'pub %s: Option<%s>,\\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType','pub %s: Option<%s,\\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType')]),
("C11d","C11",[("genJava.go",'typeExtension = fmt.Sprintf(" extends %s ", fieldType)\n		}','typeExtension = fmt.Sprintf(" extends %s ", fieldType)\n		} else if len(v.Groups) > 1 {\n			typeExtension = " implements "\n		}')]),
("C11e","C11",[("genGo.go",'	if fieldType != "" {\n		return "*" + fieldType\n	}\n	return "interface{}"','	return "*" + fieldType')]),
("C11f","C11",[("genJava.go",'fieldName = strings.Replace(fieldName, "-", "", -1)','fieldName = strings.Replace(fieldName, "-", "", 1)')]),
# C12
("C12a","C12",[("genC.go",'fieldNameCount = make(map[string]int)','if fieldNameCount == nil {\n		fieldNameCount = make(map[string]int)\n	}')]),
("C12b","C12",[("genTypeScript.go",'		fieldName := genTypeScriptFieldName(v.Name, true)','		fieldName := genTypeScriptFieldName(v.Name, len(v.Elements) > 0)',6)]),
("C12c","C12",[("genRust.go",'	structName = strings.NewReplacer("-", "", "_", "").Replace(structName)\n	if unique {\n		fieldNameCount[structName]++\n		if count := fieldNameCount[structName]; count != 1 {','	count := fieldNameCount[structName]\n	if unique {\n		fieldNameCount[structName]++\n		count++\n	}\n	structName = strings.NewReplacer("-", "", "_", "").Replace(structName)\n	if unique {\n		if count != 1 {')]),
("C12d","C12",[("genGo.go",'count != 1 {','count > 2 {')]),
# C13
("C13a","C13",[("genJava.go",'	fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1))','	fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "_", -1))')]),
("C13b","C13",[("genGo.go",'	for _, str := range strings.Split(name, ".") {\n		fieldType += MakeFirstUpperCase(str)\n	}','	for _, str := range strings.SplitN(name, ".", 2) {\n		fieldType += MakeFirstUpperCase(str)\n	}')]),
("C13c","C13",[("genRust.go",'fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))\n			fieldName := genRustFieldName(element.Name)\n			if element.Plural {','fieldType := MakeFirstUpperCase(genRustFieldName(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)))\n			fieldName := genRustFieldName(element.Name)\n			if element.Plural {',2)]),
# C14
("C14a","C14",[("genRust.go",'	if _, ok := rustKeywords[fieldName]; ok {','	if _, ok := rustKeywords[name]; ok {')]),
("C14b","C14",[("genRust.go",'		"yield":    true,\n','')]),
("C14c","C14",[("genRust.go",'		fieldName += "_attr"','		fieldName = strings.TrimSuffix(fieldName+"_attr", "_attr")')]),
("C14d","C14",[("genRust.go",'content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: Vec<%s>,\\n", attrGroup.Name, genRustFieldName(attrGroup.Name)','content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: Vec<%s>,\\n", attrGroup.Name, ToSnakeCase(attrGroup.Name)')]),
# C15
("C15a","C15",[("parser.go",'sort.Strings(includes)','if len(includes) > 8 {\n			sort.Strings(includes)\n		}')]),
("C15b","C15",[("utils.go",'func (s kvPairList) Less(i, j int) bool {','func (s kvPairList) Less(i, j int) bool {\n	if len(s[i].value) != len(s[j].value) {\n		return len(s[i].value) < len(s[j].value)\n	}\n	return len(s[i].key) < len(s[j].key)\n}\n\nfunc (s kvPairList) less(i, j int) bool {')]),
("C15c","C15",[("genJava.go",'packageName := gen.Package\n','packageName := gen.Package\n	if p := os.Getenv("XGEN_PACKAGE"); packageName == "" && p != "" {\n		packageName = p\n	}\n')]),
("C15d","C15",[("genTypeScript.go",'fmt.Sprintf("%s\\n%s", copyright, gen.Field)','fmt.Sprintf("%s\\n%s// %p\\n", copyright, gen.Field, gen)[:len(copyright)+1+len(gen.Field)]')]),
# C16
("C16a","C16",[("parser.go",'token, err = decoder.Token(); err == io.EOF {','token, err = decoder.Token(); err == io.EOF || err == io.ErrUnexpectedEOF {')]),
("C16b","C16",[("parser.go",'token, err = decoder.Token(); err == io.EOF {','token, err = decoder.RawToken(); err == io.EOF {')]),
("C16c","C16",[("genC.go",'	if _, err = f.Write(source); err != nil {\n		return err\n	}','	f.Write(source)')]),
("C16d","C16",[("xmlChoice.go",'attr.Value != "unbounded" && err != nil {\n				return\n			}','attr.Value != "unbounded" && err != nil {\n				continue\n			}')]),
("C16e","C16",[("utils.go",'			if err != nil {\n				return err\n			}\n			files','			if os.IsPermission(err) {\n				return nil\n			}\n			if err != nil {\n				return err\n			}\n			files')]),
("C16f","C16",[("utils.go",'	if os.IsNotExist(err) {','	if err != nil && !os.IsNotExist(err) {\n		return nil\n	}\n	if os.IsNotExist(err) {')]),
("C16g","C16",[("xmlAttribute.go",'			attribute.Type, err = opt.GetValueType(attr.Value, protoTree)\n			if err != nil {\n				return\n			}\n		}\n		if attr.Name.Local == "use"','			attribute.Type, err = opt.GetValueType(attr.Value, protoTree)\n		}\n		if attr.Name.Local == "use"')]),
("C16h","C16",[("parser.go",'	decoder := xml.NewDecoder(xmlFile)\n','	decoder := xml.NewDecoder(xmlFile)\n	decoder.Strict = false\n')]),
# C18
("C18a","C18",[("xmlElement.go",'			if attr.Value != "0" {\n				e.Plural = true\n			}\n','			if attr.Value != "0" {\n				e.Plural = true\n			}\n			break\n')]),
("C18b","C18",[("xmlAttribute.go",'		if attr.Name.Local == "type" {','		if attr.Name.Local == "type" && attribute.Name != "" {')]),
("C18c","C18",[("xmlInclude.go",'			if isValidURL(ele.Value) {\n				continue','			if isValidURL(ele.Value) {\n				break')]),
("C18d","C18",[("xmlGroup.go",'				group.Plural, err = true, nil\n','				group.Plural, err = group.Name != "", nil\n')]),
("C18e","C18",[("schema.go",'		if ele.Name.Space == "xmlns" {','		if ele.Name.Local == "targetNamespace" {\n			break\n		}\n		if ele.Name.Space == "xmlns" {')]),
# C19
("C19a","C19",[("xmlElement.go",'attr.Value == "unbounded" || maxOccurs > 1 {','attr.Value == "unbounded" || maxOccurs > 2 {')]),
("C19b","C19",[("xmlElement.go",'element != nil && element.Type == e.Type {\n			element.Plural = element.Plural || e.Plural','element != nil && element.Type == e.Type {\n			element.Plural = e.Plural')]),
("C19c","C19",[("xmlChoice.go",'		choice.Plural = choice.Plural || opt','		choice.Plural = opt')]),
("C19d","C19",[("xmlAttribute.go",'if attr.Value == "required" {','if attr.Value == "required" || attr.Value == "prohibited" {')]),
("C19e","C19",[("xmlElement.go",'			if attr.Value == "unbounded" || maxOccurs > 1 {\n				e.Plural, err = true, nil','			if attr.Value == "unbounded" || maxOccurs != 1 {\n				e.Plural, err = true, nil')]),
("C19f","C19",[("xmlElement.go",'		e.Plural = e.Plural || opt.Choice','		e.Plural = e.Plural || opt.Choice.Len() > 1 && opt.Choice')]),
# C20
("C20a","C20",[("xmlElement.go",'		if element != nil && element.Type == e.Type {','		if element != nil {')]),
("C20b","C20",[("xmlGroup.go",'		if g.Name == group.Name {','		if strings.EqualFold(g.Name, group.Name) {'),("xmlGroup.go",'	"strconv"','	"strconv"\n	"strings"')]),
("C20c","C20",[("xmlAttributeGroup.go",'	if opt.AttributeGroup.Len() > 0 {','	if opt.AttributeGroup.Len() == 1 {')]),
("C20d","C20",[("xmlEnumeration.go",'		if attr.Name.Local == "value" {','		if attr.Name.Local == "value" && attr.Value != "" {')]),
("C20e","C20",[("xmlAttribute.go",'*opt.Attribute.Pop().(*Attribute))\n		return\n	}\n	if opt.ComplexType.Len() == 0','*opt.Attribute.Peek().(*Attribute))\n		opt.Attribute.Pop()\n		return\n	}\n	if opt.Attribute.Len() == 1 && opt.ComplexType.Len() == 0')]),
("C20f","C20",[("xmlExtension.go",'complexType.Base, err = opt.GetValueType(valueType, protoTree)','_, err = opt.GetValueType(valueType, protoTree)')]),
("C20g","C20",[("xmlElement.go",'	if opt.Element.Len() > 0 && opt.ComplexType.Len() == 0 {','	if opt.Element.Len() > 0 && opt.ComplexType.Len() == 0 && opt.InGroup == 0 {')]),
]
