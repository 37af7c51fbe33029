import re
exec(open('/tmp/mut/r2.py').read().split('M=[]')[0])
M=[]
def add(n,*e): M.append((n,"--",list(e)))
add("D01 complextype merged",body('xmlComplexType.go','OnComplexType','''func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{}) (err error) {
	c := &ComplexType{}
	if opt.ComplexType.Empty() {
		opt.CurrentEle = opt.InElement
		for _, attr := range ele.Attr {
			if attr.Name.Local == "name" {
				c.Name = attr.Value
			}
		}
	}
	if c.Name == "" {
		if e, ok := opt.Element.Pop().(*Element); ok {
			c.Name = e.Name
			c.Doc = e.Doc
		}
	}
	opt.ComplexType.Push(c)
	return
}
'''))
add("D02 chardata doc target",body('xmlCharData.go','OnCharData','''func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error) {
	doc := strings.TrimSpace(ele)
	if doc == "" {
		return nil
	}
	if target := opt.docTarget(); target != nil {
		*target = doc
	}
	return nil
}

// docTarget returns the documentation of the innermost open declaration.
func (opt *Options) docTarget() *string {
	if a, ok := opt.Attribute.Peek().(*Attribute); ok {
		return &a.Doc
	}
	if opt.InAttributeGroup {
		if g, ok := opt.AttributeGroup.Peek().(*AttributeGroup); ok {
			return &g.Doc
		}
	}
	if opt.InElement != "" {
		if e, ok := opt.Element.Peek().(*Element); ok {
			return &e.Doc
		}
	}
	switch opt.CurrentEle {
	case "simpleType":
		s, ok := opt.SimpleType.Peek().(*SimpleType)
		if !ok || len(s.Restriction.Enum) > 0 {
			return nil
		}
		return &s.Doc
	case "complexType":
		c, ok := opt.ComplexType.Peek().(*ComplexType)
		if !ok {
			return nil
		}
		if n := len(c.Attributes); n > 0 {
			return &c.Attributes[n-1].Doc
		}
		if n := len(c.Elements); n > 0 {
			return &c.Elements[n-1].Doc
		}
		return &c.Doc
	case "group":
		g, ok := opt.Group.Peek().(*Group)
		if !ok {
			return nil
		}
		if n := len(g.Elements); n > 0 {
			return &g.Elements[n-1].Doc
		}
		return &g.Doc
	}
	return nil
}
'''))
add("D03 chardata setDoc",sub('xmlCharData.go','OnCharData',('''	if strings.TrimSpace(ele) == "" {
		return
	}
	ele = strings.TrimSpace(ele)
''','''	if ele = strings.TrimSpace(ele); len(ele) == 0 {
		return
	}
'''),('''		if opt.Attribute.Len() > 0 {
			opt.Attribute.Peek().(*Attribute).Doc = ele
			return
		}
		if opt.ComplexType''','''		if opt.ComplexType''')))
add("D04 c helpers",sub('genC.go','CComplexType',('''			var plural string
			fieldType, ok := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
			if ok || group.Plural {
				plural = "[]"
			}
			content += fmt.Sprintf("\\t%s %s%s;\\n", fieldType, genCFieldName(group.Name, false), plural)
''','''			content += gen.cMember(group.Name, group.Ref, group.Plural)
'''),('''			var plural, fieldType string
			var ok bool
			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))); ok || element.Plural {
				plural = "[]"
			}
			content += fmt.Sprintf("\\t%s %s%s;\\n", fieldType, genCFieldName(element.Name, false), plural)
''','''			content += gen.cMember(element.Name, element.Type, element.Plural)
''')),('genC.go','// CGroup generates','''func (gen *CodeGenerator) cMember(name, typ string, plural bool) string {
	base := genCFieldType(getBasefromSimpleType(trimNSPrefix(typ), gen.ProtoTree))
	base, isArray := innerArray(base)
	if suffix := "[]"; isArray || plural {
		return "\\t" + base + " " + genCFieldName(name, false) + suffix + ";\\n"
	}
	return "\\t" + base + " " + genCFieldName(name, false) + ";\\n"
}

// CGroup generates'''))
add("D05 comment lines",body('utils.go','genFieldComment','''func genFieldComment(name, doc, prefix string) string {
	if doc == "" {
		return fmt.Sprintf("\\r\\n%s %s ...\\r\\n", prefix, name)
	}
	doc = strings.Replace(doc, "\\t", "", -1)
	doc = strings.Replace(doc, "\\r\\n", "\\n", -1)
	for _, sep := range []string{"\\r", "\\u2028", "\\u2029"} {
		doc = strings.Replace(doc, sep, "\\n", -1)
	}
	lines := strings.Split(doc, "\\n")
	return "\\r\\n" + prefix + " " + name + " is " + strings.Join(lines, "\\r\\n"+prefix+" ") + "\\r\\n"
}
'''))
add("D06 includes keys helper",sub('parser.go','GetValueType',('''			includes := make([]string, 0, len(opt.IncludeMap))
			for include := range opt.IncludeMap {
				includes = append(includes, include)
			}
			sort.Strings(includes)
			for _, include := range includes {''','''			for _, include := range opt.sortedIncludes() {''')),('parser.go','// GetValueType convert','''func (opt *Options) sortedIncludes() []string {
	var includes []string
	for include := range opt.IncludeMap {
		includes = append(includes, include)
	}
	sort.Strings(includes)
	return includes
}

// GetValueType convert'''))
add("D07 lookup parser",sub('parser.go','GetValueType',('''				parser := NewParser(&Options{
					FilePath:            include,
					OutputDir:           opt.OutputDir,
					Extract:             true,
					Lang:                opt.Lang,
					IncludeMap:          opt.IncludeMap,
					LocalNameNSMap:      make(map[string]string),
					NSSchemaLocationMap: make(map[string]string),
					ParseFileList:       opt.ParseFileList,
					ParseFileMap:        opt.ParseFileMap,
					ProtoTree:           make([]interface{}, 0),
				})
				if err''','''				parser := opt.lookupParser(include, opt.IncludeMap)
				if err'''),('''	parser := NewParser(&Options{
		FilePath:            xsdFile,
		OutputDir:           opt.OutputDir,
		Extract:             true,
		Lang:                opt.Lang,
		IncludeMap:          make(map[string]bool),
		LocalNameNSMap:      make(map[string]string),
		NSSchemaLocationMap: make(map[string]string),
		ParseFileList:       opt.ParseFileList,
		ParseFileMap:        opt.ParseFileMap,
		ProtoTree:           make([]interface{}, 0),
	})
''','''	parser := opt.lookupParser(xsdFile, map[string]bool{})
''')),('parser.go','// GetValueType convert','''func (opt *Options) lookupParser(path string, includes map[string]bool) *Options {
	p := Options{
		Extract:             true,
		FilePath:            path,
		IncludeMap:          includes,
		LocalNameNSMap:      map[string]string{},
		NSSchemaLocationMap: map[string]string{},
		ProtoTree:           []interface{}{},
	}
	p.OutputDir, p.Lang = opt.OutputDir, opt.Lang
	p.ParseFileList, p.ParseFileMap = opt.ParseFileList, opt.ParseFileMap
	return NewParser(&p)
}

// GetValueType convert'''))
add("D08 find element index",body('xmlElement.go','findElement','''func findElement(element *Element, elements []Element) (*Element, int) {
	for i := 0; i < len(elements); i++ {
		candidate := elements[i]
		if candidate.Type != element.Type || candidate.Name != element.Name {
			continue
		}
		return &candidate, i
	}
	return nil, -1
}
'''))
add("D09 find element in place",sub('xmlElement.go','OnElement',('''		element, i := findElement(&e, opt.ComplexType.Peek().(*ComplexType).Elements)
''','''		parent := opt.ComplexType.Peek().(*ComplexType)
		element := findElement(&e, parent)
'''),('''		if element != nil && element.Type == e.Type {
			element.Plural = element.Plural || e.Plural
			opt.ComplexType.Peek().(*ComplexType).Elements[i] = *element
		} else {
			opt.ComplexType.Peek().(*ComplexType).Elements = append(opt.ComplexType.Peek().(*ComplexType).Elements, e)
		}
''','''		if element == nil {
			parent.Elements = append(parent.Elements, e)
		} else if e.Plural {
			element.Plural = true
		}
''')),body('xmlElement.go','findElement','''func findElement(element *Element, in *ComplexType) *Element {
	for i := range in.Elements {
		if existing := &in.Elements[i]; existing.Name == element.Name && existing.Type == element.Type {
			return existing
		}
	}
	return nil
}
'''))
add("D10 openfile",('genGo.go','os.Create(gen.FileWithExtension(".go"))','os.OpenFile(gen.FileWithExtension(".go"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)'))
add("D11 bufio",('genRust.go','	if _, err = f.Write(source); err != nil {\n		return err\n	}\n	return f.Close()','	w := bufio.NewWriter(f)\n	if _, err = w.Write(source); err != nil {\n		return err\n	}\n	if err = w.Flush(); err != nil {\n		return err\n	}\n	return f.Close()'),('genRust.go','import (\n','import (\n	"bufio"\n'))
add("D12 fprintf",('genC.go','	source := []byte(fmt.Sprintf("%s\\n%s", copyright, gen.Field))\n	if _, err = f.Write(source); err != nil {','	if _, err = fmt.Fprintf(f, "%s\\n%s", copyright, gen.Field); err != nil {'))
add("D13 writestring",('genTypeScript.go','	source := []byte(fmt.Sprintf("%s\\n%s", copyright, gen.Field))\n	if _, err = f.Write(source); err != nil {','	if _, err = f.WriteString(copyright + "\\n" + gen.Field); err != nil {'))
add("D14 writefile",('genC.go','	f, err := os.Create(gen.FileWithExtension(".h"))\n	if err != nil {\n		return err\n	}\n	defer f.Close()\n	source := []byte(fmt.Sprintf("%s\\n%s", copyright, gen.Field))\n	if _, err = f.Write(source); err != nil {\n		return err\n	}\n	return f.Close()','	source := []byte(copyright + "\\n" + gen.Field)\n	return os.WriteFile(gen.FileWithExtension(".h"), source, 0666)'))
add("D15 anon type helper",sub('xmlComplexType.go','OnComplexType',('''		c := ComplexType{}
		if e, ok := opt.Element.Pop().(*Element); ok {
			c.Name, c.Doc = e.Name, e.Doc
		}
		opt.ComplexType.Push(&c)
''','''		opt.ComplexType.Push(opt.anonymousType())
'''),('''			if e, ok := opt.Element.Pop().(*Element); ok {
				c.Name, c.Doc = e.Name, e.Doc
			}
''','''			c = *opt.anonymousType()
''')),('xmlComplexType.go','// EndComplexType handles','''func (opt *Options) anonymousType() *ComplexType {
	e, ok := opt.Element.Pop().(*Element)
	if !ok {
		return new(ComplexType)
	}
	return &ComplexType{Name: e.Name, Doc: e.Doc}
}

// EndComplexType handles'''))
add("D16 endattribute closure",body('xmlAttribute.go','EndAttribute','''func (opt *Options) EndAttribute(ele xml.EndElement, protoTree []interface{}) (err error) {
	attribute, ok := opt.Attribute.Pop().(*Attribute)
	if !ok {
		return
	}
	switch {
	case !opt.AttributeGroup.Empty():
		group := opt.AttributeGroup.Peek().(*AttributeGroup)
		group.Attributes = append(group.Attributes, *attribute)
	case !opt.ComplexType.Empty():
		complexType := opt.ComplexType.Peek().(*ComplexType)
		complexType.Attributes = append(complexType.Attributes, *attribute)
	default:
		opt.ProtoTree = append(opt.ProtoTree, attribute)
	}
	return
}
'''))
add("D17 union fields",body('xmlUnion.go','OnUnion','''func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) error {
	opt.InUnion = true
	simpleType, ok := opt.SimpleType.Peek().(*SimpleType)
	if !ok {
		return nil
	}
	simpleType.Union, simpleType.MemberTypes = true, map[string]string{}
	for _, attr := range ele.Attr {
		if attr.Name.Local != "memberTypes" {
			continue
		}
		for _, member := range strings.Fields(attr.Value) {
			base, err := opt.GetValueType(member, protoTree)
			simpleType.MemberTypes[trimNSPrefix(member)] = base
			if err != nil {
				return err
			}
		}
	}
	return nil
}
'''))
add("D18 walk closure",sub('utils.go','GetFileList',('''		err = filepath.Walk(path, func(fp string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			files = append(files, fp)
			return nil
		})
		if err != nil {
			return
		}
''','''		collect := func(fp string, _ os.FileInfo, walkErr error) error {
			if walkErr == nil {
				files = append(files, fp)
			}
			return walkErr
		}
		if err = filepath.Walk(path, collect); err != nil {
			return
		}
''')))
add("D19 prepare",body('utils.go','PrepareOutputDir','''func PrepareOutputDir(path string) error {
	if len(path) == 0 {
		return nil
	}
	if _, err := os.Stat(path); !os.IsNotExist(err) {
		return nil
	}
	return os.MkdirAll(path, 0755)
}
'''))
add("D20 base switch",body('utils.go','getBasefromSimpleType','''func getBasefromSimpleType(name string, XSDSchema []interface{}) string {
	for i := range XSDSchema {
		if base, ok := baseOf(XSDSchema[i], name); ok {
			return base
		}
	}
	return name
}

func baseOf(declaration interface{}, name string) (string, bool) {
	if v, ok := declaration.(*SimpleType); ok {
		plain := !(v.List || v.Union)
		return v.Base, plain && v.Name == name
	}
	if v, ok := declaration.(*Attribute); ok && v.Name == name {
		return v.Type, true
	}
	if v, ok := declaration.(*Element); ok && v.Name == name {
		return v.Type, true
	}
	return "", false
}
'''))
add("D21 rust tag helper",sub('genRust.go','RustComplexType',('''content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: Vec<%s>,\\n", element.Name, fieldName, fieldType)''','''content += rustField(element.Name, "Vec<"+fieldType+">")'''),('''content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: Option<%s>,\\n", element.Name, fieldName, fieldType)''','''content += rustField(element.Name, "Option<"+fieldType+">")'''),('''content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: %s,\\n", element.Name, fieldName, fieldType)''','''content += rustField(element.Name, fieldType)'''),('''			fieldName := genRustFieldName(element.Name)
''','')),('genRust.go','// RustGroup generates','''func rustField(name, typ string) string {
	var b strings.Builder
	b.WriteString("\\t#[serde(rename = \\"")
	b.WriteString(name)
	b.WriteString("\\")]\\n\\tpub ")
	b.WriteString(genRustFieldName(name))
	b.WriteString(": ")
	b.WriteString(typ)
	b.WriteString(",\\n")
	return b.String()
}

// RustGroup generates'''))
add("D22 go struct lines",sub('genGo.go','GoGroup',('content := " struct {\\n"','lines := []string{" struct {"}'),('content += fmt.Sprintf("\\tXMLName\\txml.Name\\t`xml:\\"%s\\"`\\n", v.Name)','lines = append(lines, fmt.Sprintf("\\tXMLName\\txml.Name\\t`xml:\\"%s\\"`", v.Name))'),('content += fmt.Sprintf("\\t%s\\t%s%s\\n", genGoFieldName(element.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)))','lines = append(lines, fmt.Sprintf("\\t%s\\t%s%s", genGoFieldName(element.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))))'),('content += fmt.Sprintf("\\t%s\\t%s%s\\n", genGoFieldName(group.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))','lines = append(lines, fmt.Sprintf("\\t%s\\t%s%s", genGoFieldName(group.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))))'),('		content += "}\\n"\n','		content := strings.Join(append(lines, "}"), "\\n") + "\\n"\n')))
add("D23 main flags check",sub('cmd/xgen/xgen.go','parseFlags',('''	if ok := SupportLang[Cfg.Lang]; !ok {
		fmt.Println("unsupport language", Cfg.Lang)
		os.Exit(1)
	}
''','''	switch Cfg.Lang {
	case "Go", "C", "Java", "Rust", "TypeScript":
	default:
		fmt.Println("unsupport language", Cfg.Lang)
		os.Exit(1)
	}
''')))
add("D24 main fail helper",sub('cmd/xgen/xgen.go','parseFlags',('''		fmt.Println("must specify input file path or directory for the XML schema definition")
		os.Exit(1)
''','''		fail("must specify input file path or directory for the XML schema definition")
'''),('''		fmt.Println("must specify the language of generated code (Go/C/Java/Rust/TypeScript)")
		os.Exit(1)
''','''		fail("must specify the language of generated code (Go/C/Java/Rust/TypeScript)")
'''),('''		fmt.Println("unsupport language", Cfg.Lang)
		os.Exit(1)
''','''		fail("unsupport language", Cfg.Lang)
''')),('cmd/xgen/xgen.go','func main() {','''func fail(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func main() {'''))
add("D25 enum table",sub('genTypeScript.go','TypeScriptSimpleType',('''			switch baseType {
			case "string":
				content += fmt.Sprintf("\\t%s = '%s',\\n", enum, enum)
			case "number":
				content += fmt.Sprintf("\\tEnum%s = %s,\\n", enum, enum)
			default:
				content += fmt.Sprintf("\\tEnum%s = '%s',\\n", enum, enum)
			}
''','''			key, value := "Enum"+enum, "'"+enum+"'"
			if baseType == "string" {
				key = enum
			} else if baseType == "number" {
				value = enum
			}
			content += "\\t" + key + " = " + value + ",\\n"
''')))
add("D26 snake runes",body('utils.go','ToTitle','''func ToTitle(val string) string {
	if val == "" {
		return ""
	}
	first, size := utf8.DecodeRuneInString(val)
	return string(unicode.ToUpper(first)) + val[size:]
}
'''))
add("D27 ns tables",body('schema.go','prepareLocalNameNSMap','''func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
	namespaces := opt.LocalNameNSMap
	namespaces["xml"] = xmlNamespace
	for i := range element.Attr {
		name, value := element.Attr[i].Name, element.Attr[i].Value
		switch {
		case name.Space == "xmlns":
			namespaces[name.Local] = value
		case name.Local == "xmlns" && name.Space == "":
			namespaces[""] = value
		}
	}
}
'''))
add("D28 generic loop fn",sub('genJava.go','JavaComplexType',('''		for _, group := range v.Groups {
			var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
			if group.Plural {
				fieldType = fmt.Sprintf("List<%s>", fieldType)
			}
			content += fmt.Sprintf("\\tprotected %s %s;\\n", fieldType, genJavaFieldName(group.Name, false))
		}
''','''		groupFields := func() (fields string) {
			for _, group := range v.Groups {
				fields += fmt.Sprintf("\\tprotected %s %s;\\n", gen.javaType(group.Ref, group.Plural), genJavaFieldName(group.Name, false))
			}
			return
		}
		content += groupFields()
''')),('genJava.go','func isBuiltInJavaType','''func (gen *CodeGenerator) javaType(name string, plural bool) string {
	t := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(name), gen.ProtoTree))
	if plural {
		return "List<" + t + ">"
	}
	return t
}

func isBuiltInJavaType'''))
add("D29 occurs table",sub('xmlChoice.go','OnChoice',('''			if attr.Value == "unbounded" || maxOccurs > 1 {
				choice.Plural, err = true, nil
			} else {
				choice.Plural, err = false, nil
			}
''','''			choice.Plural = attr.Value == "unbounded" || maxOccurs > 1
			err = nil
''')))
add("D30 atoi first",sub('xmlGroup.go','OnGroup',('''			var maxOccurs int
			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
				return
			}
			if attr.Value == "unbounded" || maxOccurs > 1 {
				group.Plural, err = true, nil
			}
''','''			if attr.Value == "unbounded" {
				group.Plural = true
				continue
			}
			maxOccurs, convErr := strconv.Atoi(attr.Value)
			if convErr != nil {
				return convErr
			}
			if maxOccurs > 1 {
				group.Plural = true
			}
''')))
