import re
def fn(file, name):
    s=open('/tmp/mut/repo/'+file).read()
    m=re.search(r'^func (\([^)]*\) )?'+name+r'\(.*?^}$\n?', s, re.M|re.S)
    return m.group(0)
def body(file, name, new):   # replace whole function
    return (file, fn(file,name), new)
def sub(file, name, *prs):
    o=fn(file,name); n=o
    for a,b in prs:
        assert a in n, (name,a)
        n=n.replace(a,b)
    return (file,o,n)
M=[]
M.append(("A01 attrValue helper","--",[body('xmlAttribute.go','OnAttribute','''func (opt *Options) OnAttribute(ele xml.StartElement, protoTree []interface{}) (err error) {
	attribute := Attribute{Optional: true}
	if ref, ok := attrValue(ele, "ref"); ok {
		attribute.Name = ref
		if attribute.Type, err = opt.GetValueType(ref, protoTree); err != nil {
			return
		}
	}
	if name, ok := attrValue(ele, "name"); ok {
		attribute.Name = name
	}
	if typ, ok := attrValue(ele, "type"); ok {
		if attribute.Type, err = opt.GetValueType(typ, protoTree); err != nil {
			return
		}
	}
	if use, ok := attrValue(ele, "use"); ok && use == "required" {
		attribute.Optional = false
	}
	opt.Attribute.Push(&attribute)
	return
}

// attrValue returns the value of an attribute of an XML element.
func attrValue(ele xml.StartElement, local string) (value string, ok bool) {
	for _, attr := range ele.Attr {
		if attr.Name.Local == local {
			value, ok = attr.Value, true
		}
	}
	return
}
''')]))
occ_old='''			var maxOccurs int
			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
				return
			}
			if attr.Value == "unbounded" || maxOccurs > 1 {
				%s.Plural, err = true, nil
			}'''
occ_new='''			var plural bool
			if plural, err = isPlural(attr.Value); err != nil {
				return
			}
			if plural {
				%s.Plural = true
			}'''
helper='''
// isPlural reports whether a maxOccurs value allows several occurrences.
func isPlural(maxOccurs string) (bool, error) {
	if maxOccurs == "unbounded" {
		return true, nil
	}
	n, err := strconv.Atoi(maxOccurs)
	if err != nil {
		return false, err
	}
	return n > 1, nil
}
'''
M.append(("A02 isPlural everywhere","--",[('xmlElement.go',occ_old%'e',occ_new%'e'),('xmlGroup.go',occ_old%'group',occ_new%'group'),('xmlGroup.go','	"strconv"\n',''),
 sub('xmlChoice.go','OnChoice',('''			var maxOccurs int
			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
				return
			}
			if attr.Value == "unbounded" || maxOccurs > 1 {
				choice.Plural, err = true, nil
			} else {
				choice.Plural, err = false, nil
			}''','''			if choice.Plural, err = isPlural(attr.Value); err != nil {
				return
			}''')),('xmlChoice.go','	"strconv"\n',''),('xmlElement.go','func findElement(',helper.lstrip('\n')+'\nfunc findElement(')]))
M.append(("A03 complextype merged","--",[body('xmlComplexType.go','OnComplexType','''func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{}) (err error) {
	c := &ComplexType{}
	if opt.ComplexType.Len() == 0 {
		opt.CurrentEle = opt.InElement
		for _, attr := range ele.Attr {
			if attr.Name.Local == "name" {
				c.Name = attr.Value
			}
		}
	}
	if c.Name == "" {
		if e, ok := opt.Element.Pop().(*Element); ok {
			c.Name = e.Name
		}
	}
	opt.ComplexType.Push(c)
	return
}
''')]))
M.append(("A04 endattribute target","--",[body('xmlAttribute.go','EndAttribute','''func (opt *Options) EndAttribute(ele xml.EndElement, protoTree []interface{}) (err error) {
	if opt.Attribute.Empty() {
		return
	}
	attribute := opt.Attribute.Pop().(*Attribute)
	switch {
	case !opt.AttributeGroup.Empty():
		group := opt.AttributeGroup.Peek().(*AttributeGroup)
		group.Attributes = append(group.Attributes, *attribute)
	case !opt.ComplexType.Empty():
		owner := opt.ComplexType.Peek().(*ComplexType)
		owner.Attributes = append(owner.Attributes, *attribute)
	default:
		opt.ProtoTree = append(opt.ProtoTree, attribute)
	}
	return
}
''')]))
M.append(("A05 endattribute pointer","--",[body('xmlAttribute.go','EndAttribute','''func (opt *Options) EndAttribute(ele xml.EndElement, protoTree []interface{}) (err error) {
	if opt.Attribute.Len() == 0 {
		return
	}
	attribute := opt.Attribute.Pop().(*Attribute)
	if owner := opt.attributeOwner(); owner != nil {
		*owner = append(*owner, *attribute)
		return
	}
	opt.ProtoTree = append(opt.ProtoTree, attribute)
	return
}

func (opt *Options) attributeOwner() *[]Attribute {
	if opt.AttributeGroup.Len() > 0 {
		return &opt.AttributeGroup.Peek().(*AttributeGroup).Attributes
	}
	if opt.ComplexType.Len() > 0 {
		return &opt.ComplexType.Peek().(*ComplexType).Attributes
	}
	return nil
}
''')]))
M.append(("A06 union local","--",[body('xmlUnion.go','OnUnion','''func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) (err error) {
	opt.InUnion = true
	simpleType, ok := opt.SimpleType.Peek().(*SimpleType)
	if !ok {
		return
	}
	simpleType.Union = true
	simpleType.MemberTypes = map[string]string{}
	for _, attr := range ele.Attr {
		if attr.Name.Local != "memberTypes" {
			continue
		}
		for _, memberType := range strings.Fields(attr.Value) {
			var valueType string
			if valueType, err = opt.GetValueType(memberType, protoTree); err != nil {
				return
			}
			simpleType.MemberTypes[trimNSPrefix(memberType)] = valueType
		}
	}
	return
}
''')]))
M.append(("A07 extension restriction helper","--",[body('xmlExtension.go','OnExtension','''func (opt *Options) OnExtension(ele xml.StartElement, protoTree []interface{}) (err error) {
	for _, attr := range ele.Attr {
		if attr.Name.Local != "base" {
			continue
		}
		var valueType string
		if valueType, err = opt.GetValueType(attr.Value, protoTree); err != nil {
			return
		}
		complexType, ok := opt.ComplexType.Peek().(*ComplexType)
		if !ok {
			continue
		}
		if complexType.Base, err = opt.GetValueType(valueType, protoTree); err != nil {
			return
		}
		if complexType.Name == "" {
			complexType.Name = attr.Value
		}
	}
	return
}
'''),body('xmlExtension.go','EndExtension','''func (opt *Options) EndExtension(ele xml.EndElement, protoTree []interface{}) (err error) {
	return opt.closeAttributeType()
}

// closeAttributeType gives the attribute being read the type of the simple
// type which was read inside it.
func (opt *Options) closeAttributeType() (err error) {
	if opt.Attribute.Empty() || opt.SimpleType.Empty() {
		return
	}
	simpleType := opt.SimpleType.Pop().(*SimpleType)
	attribute := opt.Attribute.Peek().(*Attribute)
	if attribute.Type, err = opt.GetValueType(simpleType.Base, opt.ProtoTree); err == nil {
		opt.CurrentEle = ""
	}
	return
}
'''),body('xmlRestriction.go','EndRestriction','''func (opt *Options) EndRestriction(ele xml.EndElement, protoTree []interface{}) (err error) {
	if err = opt.closeAttributeType(); err != nil {
		return
	}
	if opt.Element.Empty() || opt.ComplexType.Empty() {
		return
	}
	complexType := opt.ComplexType.Peek().(*ComplexType)
	if last := len(complexType.Elements) - 1; last >= 0 {
		complexType.Elements[last] = *opt.Element.Peek().(*Element)
	}
	return
}
''')]))
M.append(("A08 endsimpletype switch","--",[body('xmlSimpleType.go','EndSimpleType','''func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (err error) {
	if opt.SimpleType.Len() > 0 && opt.Attribute.Len() > 0 {
		simpleType := opt.SimpleType.Pop().(*SimpleType)
		opt.Attribute.Peek().(*Attribute).Type = simpleType.Base
		return
	}
	if ele.Name.Local != opt.CurrentEle {
		return
	}
	switch {
	case opt.ComplexType.Len() == 1:
		opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
		opt.CurrentEle = ""
		if ele.Name.Local != "" || opt.InUnion {
			return
		}
		fallthrough
	case !opt.InUnion:
		opt.ProtoTree = append(opt.ProtoTree, opt.SimpleType.Pop())
		opt.CurrentEle = ""
	}
	return
}
''')]))
M.append(("A09 chardata early","--",[body('xmlCharData.go','OnCharData','''func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error) {
	doc := strings.TrimSpace(ele)
	if doc == "" {
		return
	}
	if opt.InAttributeGroup && !opt.AttributeGroup.Empty() {
		opt.AttributeGroup.Peek().(*AttributeGroup).Doc = doc
		return
	}
	if opt.InElement != "" && !opt.Element.Empty() {
		opt.Element.Peek().(*Element).Doc = doc
		return
	}
	if !opt.Attribute.Empty() {
		opt.Attribute.Peek().(*Attribute).Doc = doc
		return
	}
	if opt.CurrentEle == "simpleType" && !opt.SimpleType.Empty() {
		opt.SimpleType.Peek().(*SimpleType).Doc = doc
	} else if opt.CurrentEle == "complexType" && !opt.ComplexType.Empty() {
		complexType := opt.ComplexType.Peek().(*ComplexType)
		if n := len(complexType.Attributes); n > 0 {
			complexType.Attributes[n-1].Doc = doc
		} else {
			complexType.Doc = doc
		}
	}
	return
}
''')]))
# C member helper
cm='''func (gen *CodeGenerator) cType(name string, plural bool) (fieldType, suffix string) {
	fieldType, array := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(name), gen.ProtoTree)))
	if array || plural {
		suffix = "[]"
	}
	return
}

'''
M.append(("A10 c type helper","--",[body('genC.go','CComplexType',cm+'''func (gen *CodeGenerator) CComplexType(v *ComplexType) {
	if _, ok := gen.StructAST[v.Name]; ok {
		return
	}
	var content strings.Builder
	content.WriteString("struct {\\n")
	for _, attrGroup := range v.AttributeGroup {
		fieldType, suffix := gen.cType(attrGroup.Ref, false)
		fmt.Fprintf(&content, "\\t%s %s%s;\\n", fieldType, genCFieldName(attrGroup.Name, false), suffix)
	}
	for _, attribute := range v.Attributes {
		fieldType, suffix := gen.cType(attribute.Type, false)
		fmt.Fprintf(&content, "\\t%s %sAttr%s; // attr", fieldType, genCFieldName(attribute.Name, false), suffix)
		if attribute.Optional {
			content.WriteString(", optional")
		}
		content.WriteByte('\\n')
	}
	for _, group := range v.Groups {
		fieldType, suffix := gen.cType(group.Ref, group.Plural)
		fmt.Fprintf(&content, "\\t%s %s%s;\\n", fieldType, genCFieldName(group.Name, false), suffix)
	}
	for i := range v.Elements {
		element := &v.Elements[i]
		fieldType, suffix := gen.cType(element.Type, element.Plural)
		fmt.Fprintf(&content, "\\t%s %s%s;\\n", fieldType, genCFieldName(element.Name, false), suffix)
	}
	content.WriteString("}")
	gen.StructAST[v.Name] = content.String()
	fieldName := genCFieldName(v.Name, true)
	gen.Field += genFieldComment(fieldName, v.Doc, "//") + "typedef " + gen.StructAST[v.Name] + " " + fieldName + ";\\n"
}
'''),body('genC.go','CElement','''func (gen *CodeGenerator) CElement(v *Element) {
	if _, ok := gen.StructAST[v.Name]; ok {
		return
	}
	fieldType, suffix := gen.cType(v.Type, v.Plural)
	gen.StructAST[v.Name] = fieldType + " " + genCFieldName(v.Name, true) + suffix
	gen.Field += "\\ntypedef " + gen.StructAST[v.Name] + ";\\n"
}
''')]))
M.append(("A11 c declare helper","--",[body('genC.go','CGroup','''func (gen *CodeGenerator) CGroup(v *Group) {
	if _, ok := gen.StructAST[v.Name]; ok {
		return
	}
	var lines []string
	for _, element := range v.Elements {
		lines = append(lines, gen.cMember(element.Name, element.Type, element.Plural))
	}
	for _, group := range v.Groups {
		lines = append(lines, gen.cMember(group.Name, group.Ref, group.Plural))
	}
	gen.cDeclare(v.Name, v.Doc, "struct {\\n"+strings.Join(lines, "")+"}")
}

func (gen *CodeGenerator) cMember(name, typeName string, plural bool) string {
	suffix := ""
	fieldType, array := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(typeName), gen.ProtoTree)))
	if plural || array {
		suffix = "[]"
	}
	return fmt.Sprintf("\\t%s %s%s;\\n", fieldType, genCFieldName(name, false), suffix)
}

func (gen *CodeGenerator) cDeclare(name, doc, content string) {
	gen.StructAST[name] = content
	fieldName := genCFieldName(name, true)
	gen.Field += fmt.Sprintf("%stypedef %s %s;\\n", genFieldComment(fieldName, doc, "//"), content, fieldName)
}
''')]))
M.append(("A12 rust member helper","--",[body('genRust.go','RustComplexType','''func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
	if _, ok := gen.StructAST[v.Name]; ok {
		return
	}
	var members []string
	for _, attrGroup := range v.AttributeGroup {
		members = append(members, gen.rustMember(attrGroup.Name, attrGroup.Ref, "Vec"))
	}
	for _, attribute := range v.Attributes {
		container := ""
		if attribute.Optional {
			container = "Option"
		}
		members = append(members, gen.rustMember(attribute.Name, attribute.Type, container))
	}
	for _, group := range v.Groups {
		container := ""
		if group.Plural {
			container = "Vec"
		}
		members = append(members, gen.rustMember(group.Name, group.Ref, container))
	}
	for _, element := range v.Elements {
		var container string
		switch {
		case element.Plural:
			container = "Vec"
		case element.Optional:
			container = "Option"
		}
		members = append(members, gen.rustMember(element.Name, element.Type, container))
	}
	if v.Base != "" {
		fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
		if isRustBuiltInType(v.Base) {
			members = append(members, "\\t#[serde(rename = \\"$value\\")]\\n\\tpub value: "+fieldType+",\\n")
		} else {
			members = append(members, fmt.Sprintf("\\t#[serde(flatten)]\\n\\tpub %s: %s,\\n", genRustFieldName(fieldType), fieldType))
		}
	}
	gen.rustStruct(v.Name, v.Doc, strings.Join(members, ""))
}

func (gen *CodeGenerator) rustMember(name, typeName, container string) string {
	fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(typeName), gen.ProtoTree))
	if container != "" {
		fieldType = container + "<" + fieldType + ">"
	}
	return fmt.Sprintf("\\t#[serde(rename = %q)]\\n\\tpub %s: %s,\\n", name, genRustFieldName(name), fieldType)
}

func (gen *CodeGenerator) rustStruct(name, doc, content string) {
	gen.StructAST[name] = content
	structName := genRustStructName(name, true)
	gen.Field += fmt.Sprintf("\\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\\npub struct %s {\\n%s}\\n", genFieldComment(structName, doc, "//"), structName, content)
}
'''.replace('%q','\\"%s\\"'))]))
M.append(("A13 java buffer","--",[body('genJava.go','JavaComplexType','''func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
	if _, done := gen.StructAST[v.Name]; done {
		return
	}
	resolve := func(name string) string {
		return genJavaFieldType(getBasefromSimpleType(trimNSPrefix(name), gen.ProtoTree))
	}
	listOf := func(fieldType string, plural bool) string {
		if plural {
			return "List<" + fieldType + ">"
		}
		return fieldType
	}
	var buf bytes.Buffer
	buf.WriteString(" {\\n")
	for _, attrGroup := range v.AttributeGroup {
		fmt.Fprintf(&buf, "\\t@XmlElement(required = true)\\n\\tprotected %s %s;\\n", resolve(attrGroup.Ref), genJavaFieldName(attrGroup.Name, false))
	}
	for _, attribute := range v.Attributes {
		required := ""
		if !attribute.Optional {
			required = ", required = true"
		}
		fmt.Fprintf(&buf, "\\t@XmlAttribute(name = \\"%s\\"%s)\\n\\tprotected %s %sAttr;\\n", attribute.Name, required, resolve(attribute.Type), genJavaFieldName(attribute.Name, false))
	}
	for _, group := range v.Groups {
		fmt.Fprintf(&buf, "\\tprotected %s %s;\\n", listOf(resolve(group.Ref), group.Plural), genJavaFieldName(group.Name, false))
	}
	for _, element := range v.Elements {
		fmt.Fprintf(&buf, "\\t@XmlElement(required = true, name = \\"%s\\")\\n\\tprotected %s %s;\\n", element.Name, listOf(resolve(element.Type), element.Plural), genJavaFieldName(element.Name, false))
	}
	typeExtension := ""
	if len(v.Base) > 0 {
		if isBuiltInJavaType(v.Base) {
			fmt.Fprintf(&buf, "\\t@XmlValue\\n\\tprotected %s value;\\n", resolve(v.Base))
		} else {
			typeExtension = fmt.Sprintf(" extends %s ", resolve(v.Base))
		}
	}
	buf.WriteString("}\\n")
	gen.StructAST[v.Name] = buf.String()
	fieldName := genJavaFieldName(v.Name, true)
	gen.Field += fmt.Sprintf("%spublic class %s%s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, typeExtension, gen.StructAST[v.Name])
}
'''),('genJava.go','import (\n','import (\n	"bytes"\n')]))
M.append(("A14 gen shared emit loop","--",[sub('genGo.go','GenGo',('''	fieldNameCount = make(map[string]int)
	for _, ele := range gen.ProtoTree {
		if ele == nil {
			continue
		}
		funcName := fmt.Sprintf("Go%s", reflect.TypeOf(ele).String()[6:])
		callFuncByName(gen, funcName, []reflect.Value{reflect.ValueOf(ele)})
	}
''','	gen.emit("Go")\n'))]+[sub(f,n,('''	fieldNameCount = make(map[string]int)
	for _, ele := range gen.ProtoTree {
		if ele == nil {
			continue
		}
		funcName := fmt.Sprintf("%s%%s", reflect.TypeOf(ele).String()[6:])
		callFuncByName(gen, funcName, []reflect.Value{reflect.ValueOf(ele)})
	}
'''%l,'	gen.emit("%s")\n'%l)) for f,n,l in [('genC.go','GenC','C'),('genJava.go','GenJava','Java'),('genRust.go','GenRust','Rust'),('genTypeScript.go','GenTypeScript','TypeScript')]]+[
 (f,'	"reflect"\n','') for f in ['genC.go','genJava.go','genRust.go','genTypeScript.go']]+[('genGo.go','func isGoBuiltInType(','''// emit generates the code of every declaration.
func (gen *CodeGenerator) emit(prefix string) {
	fieldNameCount = map[string]int{}
	for _, ele := range gen.ProtoTree {
		if ele != nil {
			kind := reflect.TypeOf(ele).Elem().Name()
			callFuncByName(gen, prefix+kind, []reflect.Value{reflect.ValueOf(ele)})
		}
	}
}

func isGoBuiltInType(''')]))
M.append(("A15 write helper","--",[sub('genC.go','GenC',('''	f, err := os.Create(gen.FileWithExtension(".h"))
	if err != nil {
		return err
	}
	defer f.Close()
	source := []byte(fmt.Sprintf("%s\\n%s", copyright, gen.Field))
	if _, err = f.Write(source); err != nil {
		return err
	}
	return f.Close()
''','''	return gen.write(".h", fmt.Sprintf("%s\\n%s", copyright, gen.Field))
''')),('genC.go','func innerArray(','''func (gen *CodeGenerator) write(extension, source string) error {
	f, err := os.Create(gen.FileWithExtension(extension))
	if err != nil {
		return err
	}
	_, err = f.WriteString(source)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func innerArray('''),sub('genTypeScript.go','GenTypeScript',('''	f, err := os.Create(gen.FileWithExtension(".ts"))
	if err != nil {
		return err
	}
	defer f.Close()
	source := []byte(fmt.Sprintf("%s\\n%s", copyright, gen.Field))
	if _, err = f.Write(source); err != nil {
		return err
	}
	return f.Close()
''','''	return gen.write(".ts", copyright+"\\n"+gen.Field)
''')),('genTypeScript.go','	"os"\n','')]))
M.append(("A16 joinUpper shared","--",[sub(f,n,('''	for _, str := range strings.Split(name, ":") {
		%s += MakeFirstUpperCase(str)
	}
	var tmp string
	for _, str := range strings.Split(%s, ".") {
		tmp += MakeFirstUpperCase(str)
	}
	%s = tmp
'''%(v,v,v),'	%s = upperParts(upperParts(name, ":"), ".")\n'%v)) for f,n,v in [('genC.go','genCFieldName','fieldName'),('genGo.go','genGoFieldName','fieldName'),('genJava.go','genJavaFieldName','fieldName'),('genRust.go','genRustFieldName','fieldName'),('genRust.go','genRustStructName','structName'),('genTypeScript.go','genTypeScriptFieldName','fieldName')]]+[('utils.go','// MakeFirstUpperCase make','''// upperParts makes the first letter of every part of a name uppercase and
// removes the separators.
func upperParts(name, separator string) string {
	var sb strings.Builder
	for _, part := range strings.Split(name, separator) {
		sb.WriteString(MakeFirstUpperCase(part))
	}
	return sb.String()
}

// MakeFirstUpperCase make''')]))
M.append(("A17 unique helper","--",[sub(f,n,('''	if unique {
		fieldNameCount[%s]++
		if count := fieldNameCount[%s]; count != 1 {
			%s = fmt.Sprintf("%%s%%d", %s, count)
		}
	}
	return
'''%(v,v,v,v),'''	if unique {
		%s = uniqueName(%s)
	}
	return %s
'''%(v,v,v))) for f,n,v in [('genC.go','genCFieldName','fieldName'),('genGo.go','genGoFieldName','fieldName'),('genJava.go','genJavaFieldName','fieldName'),('genRust.go','genRustStructName','structName'),('genTypeScript.go','genTypeScriptFieldName','fieldName')]]+[('utils.go','// MakeFirstUpperCase make','''// uniqueName numbers the repetitions of a declared name.
func uniqueName(name string) string {
	count := fieldNameCount[name] + 1
	fieldNameCount[name] = count
	if count == 1 {
		return name
	}
	return name + strconv.Itoa(count)
}

// MakeFirstUpperCase make'''),('utils.go','	"sort"\n','	"sort"\n	"strconv"\n')]))
M.append(("A18 trim prefix count","--",[body('utils.go','trimNSPrefix','''func trimNSPrefix(str string) (name string) {
	if strings.Count(str, ":") != 1 {
		return str
	}
	return str[strings.Index(str, ":")+1:]
}
'''),body('utils.go','getNSPrefix','''func getNSPrefix(str string) (ns string) {
	if parts := strings.Split(str, ":"); len(parts) == 2 {
		ns = parts[0]
	}
	return
}
''')]))
M.append(("A19 lang switch","--",[body('utils.go','getBuildInTypeByLang','''func getBuildInTypeByLang(value, lang string) (buildType string, ok bool) {
	types, ok := BuildInTypes[value]
	if !ok {
		return "", false
	}
	switch lang {
	case "TypeScript":
		return types[1], true
	case "C":
		return types[2], true
	case "Java":
		return types[3], true
	case "Rust":
		return types[4], true
	}
	return types[0], true
}
''')]))
M.append(("A20 callfunc early","--",[body('utils.go','callFuncByName','''func callFuncByName(receiver interface{}, name string, params []reflect.Value) error {
	function := reflect.ValueOf(receiver).MethodByName(name)
	if !function.IsValid() || !accepts(function.Type(), params) {
		return nil
	}
	results := function.Call(params)
	if len(results) > 0 && !results[0].IsNil() {
		return results[0].Interface().(error)
	}
	return nil
}

func accepts(function reflect.Type, params []reflect.Value) bool {
	if function.NumIn() != len(params) {
		return false
	}
	for i := range params {
		if !params[i].Type().AssignableTo(function.In(i)) {
			return false
		}
	}
	return true
}
''')]))
M.append(("A21 dispatch helper","--",[sub('parser.go','Parse',('''			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
				return
			}

''','''			if err = opt.dispatch("On", element.Name.Local, element); err != nil {
				return
			}
'''),('''			funcName := fmt.Sprintf("End%s", MakeFirstUpperCase(element.Name.Local))
			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
				return
			}
''','''			if err = opt.dispatch("End", element.Name.Local, element); err != nil {
				return
			}
''')),('parser.go','// relativePath returns','''// dispatch calls the handler of an XML element.
func (opt *Options) dispatch(event, local string, element interface{}) error {
	return callFuncByName(opt, event+MakeFirstUpperCase(local), []reflect.Value{
		reflect.ValueOf(element),
		reflect.ValueOf(opt.ProtoTree),
	})
}

// relativePath returns''')]))
M.append(("A22 subParser","--",[sub('parser.go','GetValueType',('''		parser := NewParser(&Options{
			FilePath:            xsdFile,
			InputDir:            opt.InputDir,
			OutputDir:           opt.OutputDir,
			Extract:             false,
			Lang:                opt.Lang,
			Package:             opt.Package,
			IncludeMap:          make(map[string]bool),
			LocalNameNSMap:      make(map[string]string),
			NSSchemaLocationMap: make(map[string]string),
			ParseFileList:       opt.ParseFileList,
			ParseFileMap:        opt.ParseFileMap,
			ProtoTree:           make([]interface{}, 0),
		})
''','''		parser := opt.subParser(xsdFile, make(map[string]bool))
		parser.InputDir = opt.InputDir
		parser.Package = opt.Package
		parser.Extract = false
'''),('''				parser := NewParser(&Options{
					FilePath:            include,
					OutputDir:           opt.OutputDir,
					Extract:             true,
					Lang:                opt.Lang,
					IncludeMap:          opt.IncludeMap,
					LocalNameNSMap:      make(map[string]string),
					NSSchemaLocationMap: make(map[string]string),
					ParseFileList:       opt.ParseFileList,
					ParseFileMap:        opt.ParseFileMap,
					ProtoTree:           make([]interface{}, 0),
				})
''','''				parser := opt.subParser(include, opt.IncludeMap)
'''),('''	parser := NewParser(&Options{
		FilePath:            xsdFile,
		OutputDir:           opt.OutputDir,
		Extract:             true,
		Lang:                opt.Lang,
		IncludeMap:          make(map[string]bool),
		LocalNameNSMap:      make(map[string]string),
		NSSchemaLocationMap: make(map[string]string),
		ParseFileList:       opt.ParseFileList,
		ParseFileMap:        opt.ParseFileMap,
		ProtoTree:           make([]interface{}, 0),
	})
''','''	parser := opt.subParser(xsdFile, make(map[string]bool))
''')),('parser.go','// relativePath returns','''// subParser returns a parser which extracts the declarations of another file.
func (opt *Options) subParser(file string, includes map[string]bool) *Options {
	return NewParser(&Options{
		FilePath:            file,
		OutputDir:           opt.OutputDir,
		Extract:             true,
		Lang:                opt.Lang,
		IncludeMap:          includes,
		LocalNameNSMap:      make(map[string]string),
		NSSchemaLocationMap: make(map[string]string),
		ParseFileList:       opt.ParseFileList,
		ParseFileMap:        opt.ParseFileMap,
		ProtoTree:           make([]interface{}, 0),
	})
}

// relativePath returns''')]))
gv=fn('parser.go','GetValueType')
a=gv.index("		// extract type of value from include schema."); b=gv.index("	depXSDSchema, ok")
M.append(("A23 valueType split","--",[('parser.go',gv[a:b],'''		return opt.includedType(value)
	}

'''),('parser.go','// relativePath returns','''// includedType extracts the type of a value from the included schemas.
func (opt *Options) includedType(value string) (valueType string, err error) {
	name := trimNSPrefix(value)
	searched := map[string]bool{}
	for {
		include, ok := opt.unsearched(searched)
		if !ok {
			break
		}
		searched[include] = true
		parser := NewParser(&Options{
			FilePath:            include,
			OutputDir:           opt.OutputDir,
			Extract:             true,
			Lang:                opt.Lang,
			IncludeMap:          opt.IncludeMap,
			LocalNameNSMap:      make(map[string]string),
			NSSchemaLocationMap: make(map[string]string),
			ParseFileList:       opt.ParseFileList,
			ParseFileMap:        opt.ParseFileMap,
			ProtoTree:           make([]interface{}, 0),
		})
		if err = parser.Parse(); err != nil {
			return
		}
		if vt := getBasefromSimpleType(name, parser.ProtoTree); vt != name {
			valueType = vt
		}
	}
	if valueType == "" {
		valueType = name
	}
	return
}

// unsearched returns an included schema that was not searched yet.
func (opt *Options) unsearched(searched map[string]bool) (string, bool) {
	var includes []string
	for include := range opt.IncludeMap {
		if !searched[include] {
			includes = append(includes, include)
		}
	}
	if len(includes) == 0 {
		return "", false
	}
	sort.Strings(includes)
	return includes[0], true
}

// relativePath returns''')]))
M.append(("A24 valueType name local","--",[sub('parser.go','GetValueType',('trimNSPrefix(value)','name'),('(valueType string, err error) {\n','(valueType string, err error) {\n	name := trimNSPrefix(value)\n'))]))
M.append(("A25 main run","--",[('cmd/xgen/xgen.go','''	cfg := parseFlags()
	files, err := xgen.GetFileList(cfg.I)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, file := range files {
		if err = xgen''','''	if err := run(parseFlags()); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("done")
}

// run generates the code of every schema file.
func run(cfg *Config) error {
	files, err := xgen.GetFileList(cfg.I)
	if err != nil {
		return err
	}
	for _, file := range files {
		if err = xgen'''),('cmd/xgen/xgen.go','''			fmt.Printf("process error on %s: %s\\r\\n", file, err.Error())
			os.Exit(1)
		}
	}
	fmt.Println("done")
''','''			return fmt.Errorf("process error on %s: %w", file, err)
		}
	}
	return nil
''')]))
M.append(("A26 totitle decode","--",[body('utils.go','ToTitle','''func ToTitle(val string) string {
	runes := []rune(val)
	if len(runes) > 0 {
		runes[0] = unicode.ToUpper(runes[0])
	}
	return string(runes)
}
'''),('utils.go','	"unicode/utf8"\n','')]))
M.append(("A27 snake first","--",[body('utils.go','ToSnakeCase','''func ToSnakeCase(input string) string {
	output := input
	for _, boundary := range []*regexp.Regexp{matchFirstCap, matchAllCap} {
		output = boundary.ReplaceAllString(output, "${1}_${2}")
	}
	return strings.ToLower(strings.Replace(output, "-", "_", -1))
}
''')]))
M.append(("A28 comment split","--",[body('utils.go','genFieldComment','''func genFieldComment(name, doc, prefix string) string {
	text := fmt.Sprint(" ...")
	if doc != "" {
		newLine := "\\r\\n" + prefix + " "
		text = " is " + strings.NewReplacer("\\r\\n", newLine, "\\n", newLine, "\\r", newLine, "\\u2028", newLine, "\\u2029", newLine, "\\t", "").Replace(doc)
	}
	return "\\r\\n" + prefix + " " + name + text + "\\r\\n"
}
''')]))
M.append(("A29 element local","--",[sub('xmlElement.go','OnElement',('''		element, i := findElement(&e, opt.ComplexType.Peek().(*ComplexType).Elements)
''','''		complexType := opt.ComplexType.Peek().(*ComplexType)
		i := findElement(&e, complexType.Elements)
'''),('''		if element != nil && element.Type == e.Type {
			element.Plural = element.Plural || e.Plural
			opt.ComplexType.Peek().(*ComplexType).Elements[i] = *element
		} else {
			opt.ComplexType.Peek().(*ComplexType).Elements = append(opt.ComplexType.Peek().(*ComplexType).Elements, e)
		}
''','''		if i >= 0 && complexType.Elements[i].Type == e.Type {
			if e.Plural {
				complexType.Elements[i].Plural = true
			}
		} else {
			complexType.Elements = append(complexType.Elements, e)
		}
''')),body('xmlElement.go','findElement','''func findElement(element *Element, elements []Element) int {
	for i := range elements {
		if elements[i].Name == element.Name {
			return i
		}
	}
	return -1
}
''')]))
M.append(("A30 ingroups flag","--",[body('xmlGroup.go','inGroups','''func inGroups(group *Group, groups []Group) (found bool) {
	for i := 0; i < len(groups) && !found; i++ {
		found = groups[i].Name == group.Name
	}
	return found
}
''')]))
M.append(("A31 ongroup switch","--",[sub('xmlGroup.go','OnGroup',(fn('xmlGroup.go','OnGroup')[fn('xmlGroup.go','OnGroup').index("	if opt.ComplexType.Len() == 0 {"):],'''	switch {
	case opt.ComplexType.Len() > 0:
		complexType := opt.ComplexType.Peek().(*ComplexType)
		if !inGroups(&group, complexType.Groups) {
			complexType.Groups = append(complexType.Groups, group)
		}
	case opt.InGroup == 0:
		opt.InGroup = 1
		opt.CurrentEle = opt.InElement
		opt.Group.Push(&group)
	case opt.InGroup > 0:
		opt.InGroup++
		outer := opt.Group.Peek().(*Group)
		outer.Groups = append(outer.Groups, group)
	}
	return
}
'''))]))
M.append(("A32 endgroup nested","--",[body('xmlGroup.go','EndGroup','''func (opt *Options) EndGroup(ele xml.EndElement, protoTree []interface{}) (err error) {
	if opt.CurrentEle != ele.Name.Local {
		return
	}
	if opt.InGroup == 1 {
		opt.ProtoTree = append(opt.ProtoTree, opt.Group.Pop())
		opt.CurrentEle = ""
		opt.InGroup = 0
		if ele.Name.Local != "" {
			return
		}
	}
	opt.InGroup--
	return
}
''')]))
M.append(("A33 filelist walkdir","--",[body('utils.go','GetFileList','''func GetFileList(path string) ([]string, error) {
	var files []string
	info, err := os.Stat(path)
	if err != nil {
		return nil, err
	}
	if info.IsDir() {
		if err = filepath.Walk(path, func(name string, _ os.FileInfo, err error) error {
			if err == nil {
				files = append(files, name)
			}
			return err
		}); err != nil {
			return files, err
		}
	}
	return append(files, path), nil
}
''')]))
M.append(("A34 fileext switch","--",[body('genGo.go','FileWithExtension','''func (gen *CodeGenerator) FileWithExtension(extension string) string {
	extension = "." + strings.TrimPrefix(extension, ".")
	return strings.TrimSuffix(gen.File, extension) + extension
}
''')]))
M.append(("A35 ts optional map","--",[sub('genTypeScript.go','TypeScriptComplexType',('''			var optional string
			if attribute.Optional {
				optional = ` | null`
			}
''','''			optional := map[bool]string{true: " | null", false: ""}[attribute.Optional]
'''))]))
M.append(("A36 go plural helper","--",[sub('genGo.go','GoComplexType',('''			var plural string
			if group.Plural {
				plural = "[]"
			}
''','''			plural := goPlural(group.Plural)
'''),('''			var plural string
			if element.Plural {
				plural = "[]"
			}
''','''			plural := goPlural(element.Plural)
''')),('genGo.go','func isGoBuiltInType(','''func goPlural(plural bool) string {
	if plural {
		return "[]"
	}
	return ""
}

func isGoBuiltInType(''')]))
M.append(("A37 pairs keys","--",[body('utils.go','toSortedPairs','''func toSortedPairs(toSort map[string]string) kvPairList {
	pairs := make(kvPairList, len(toSort))
	next := 0
	for key, value := range toSort {
		pairs[next] = kvPair{key: key, value: value}
		next++
	}
	sort.Sort(pairs)
	return pairs
}
''')]))
M.append(("A38 rust group fields","--",[body('genRust.go','RustGroup','''func (gen *CodeGenerator) RustGroup(v *Group) {
	if _, ok := gen.StructAST[v.Name]; ok {
		return
	}
	type member struct {
		name, typ string
		plural    bool
	}
	var members []member
	for _, element := range v.Elements {
		members = append(members, member{element.Name, element.Type, element.Plural})
	}
	for _, group := range v.Groups {
		members = append(members, member{group.Name, group.Ref, group.Plural})
	}
	content := ""
	for _, m := range members {
		fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(m.typ), gen.ProtoTree))
		if m.plural {
			fieldType = "Vec<" + fieldType + ">"
		}
		content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: %s,\\n", m.name, genRustFieldName(m.name), fieldType)
	}
	gen.StructAST[v.Name] = content
	fieldName := genRustStructName(v.Name, true)
	gen.Field += fmt.Sprintf("\\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\\npub struct %s {\\n%s}\\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
}
''')]))
M.append(("A39 decode errors","--",[sub('parser.go','Parse',('''		var token xml.Token
		if token, err = decoder.Token(); err == io.EOF {
			err = nil
			break
		}
		if err != nil {
			return
		}

''','''		token, tokenErr := decoder.Token()
		if tokenErr != nil {
			if tokenErr == io.EOF {
				break
			}
			return tokenErr
		}
'''))]))
M.append(("A40 stacks list","--",[sub('parser.go','Parse',('''	opt.SimpleType = NewStack()
	opt.ComplexType = NewStack()
	opt.Element = NewStack()
	opt.Attribute = NewStack()
	opt.Group = NewStack()
	opt.AttributeGroup = NewStack()
	opt.Choice = NewStack()
''','''	for _, stack := range []**Stack{
		&opt.SimpleType, &opt.ComplexType, &opt.Element, &opt.Attribute,
		&opt.Group, &opt.AttributeGroup, &opt.Choice,
	} {
		*stack = NewStack()
	}
'''))]))
M.append(("A41 java simple else","--",[body('genJava.go','JavaGroup','''func (gen *CodeGenerator) JavaGroup(v *Group) {
	if _, ok := gen.StructAST[v.Name]; ok {
		return
	}
	content := " {\\n"
	for _, element := range v.Elements {
		content += "\\t@XmlElement(required = true, name = \\"" + element.Name + "\\")\\n" + gen.javaField(element.Name, element.Type, element.Plural)
	}
	for _, group := range v.Groups {
		content += gen.javaField(group.Name, group.Ref, group.Plural)
	}
	content += "}\\n"
	gen.StructAST[v.Name] = content
	className := genJavaFieldName(v.Name, true)
	gen.Field += genFieldComment(className, v.Doc, "//") + "public class " + className + content
}

func (gen *CodeGenerator) javaField(name, typeName string, plural bool) string {
	format := "\\tprotected %s %s;\\n"
	if plural {
		format = "\\tprotected List<%s> %s;\\n"
	}
	return fmt.Sprintf(format, genJavaFieldType(getBasefromSimpleType(trimNSPrefix(typeName), gen.ProtoTree)), genJavaFieldName(name, false))
}
''')]))
M.append(("A42 include helper","--",[body('xmlInclude.go','OnInclude','''func (opt *Options) OnInclude(ele xml.StartElement, protoTree []interface{}) (err error) {
	for i := range ele.Attr {
		location := ele.Attr[i].Value
		if ele.Attr[i].Name.Local != "schemaLocation" || isValidURL(location) {
			continue
		}
		opt.IncludeMap[filepath.Join(opt.FileDir, location)] = true
	}
	return nil
}
''')]))

M.append(("A43 trim prefix cut","--",[body('utils.go','trimNSPrefix','''func trimNSPrefix(str string) (name string) {
	if _, local, ok := strings.Cut(str, ":"); ok && !strings.Contains(local, ":") {
		return local
	}
	return str
}
'''),body('utils.go','getNSPrefix','''func getNSPrefix(str string) string {
	if i := strings.IndexByte(str, ':'); i >= 0 && i == strings.LastIndexByte(str, ':') {
		return str[:i]
	}
	return ""
}
''')]))
