S='strings'
M=[
# --- generic early-return forms
("R01 end-element early return","--",[("xmlElement.go",'	if opt.Element.Len() > 0 && opt.ComplexType.Len() == 0 {\n		opt.ProtoTree = append(opt.ProtoTree, opt.Element.Pop())\n	}\n	return\n','	if opt.Element.Len() == 0 || opt.ComplexType.Len() != 0 {\n		return nil\n	}\n	done := opt.Element.Pop()\n	opt.ProtoTree = append(opt.ProtoTree, done)\n	return nil\n')]),
("R02 attr switch","--",[("xmlAttribute.go",'''		if attr.Name.Local == "ref" {
			attribute.Name = attr.Value
			attribute.Type, err = opt.GetValueType(attr.Value, protoTree)
			if err != nil {
				return
			}
		}
		if attr.Name.Local == "name" {
			attribute.Name = attr.Value
		}
		if attr.Name.Local == "type" {
			attribute.Type, err = opt.GetValueType(attr.Value, protoTree)
			if err != nil {
				return
			}
		}
		if attr.Name.Local == "use" {
			if attr.Value == "required" {
				attribute.Optional = false
			}
		}
''','''		switch attr.Name.Local {
		case "name":
			attribute.Name = attr.Value
		case "ref", "type":
			if attr.Name.Local == "ref" {
				attribute.Name = attr.Value
			}
			if attribute.Type, err = opt.GetValueType(attr.Value, protoTree); err != nil {
				return
			}
		case "use":
			attribute.Optional = attribute.Optional && attr.Value != "required"
		}
''')]),
("R03 attrs to map","--",[("xmlEnumeration.go",'''	for _, attr := range ele.Attr {
		if attr.Name.Local == "value" {
			if opt.SimpleType.Peek() != nil {
				opt.SimpleType.Peek().(*SimpleType).Restriction.Enum = append(opt.SimpleType.Peek().(*SimpleType).Restriction.Enum, attr.Value)
			}
		}
	}
	return nil
''','''	current, ok := opt.SimpleType.Peek().(*SimpleType)
	if !ok {
		return nil
	}
	for i := range ele.Attr {
		if a := &ele.Attr[i]; a.Name.Local == "value" {
			current.Restriction.Enum = append(current.Restriction.Enum, a.Value)
		}
	}
	return nil
''')]),
("R04 occurs helper","--",[("xmlElement.go",'''			var maxOccurs int
			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
				return
			}
			if attr.Value == "unbounded" || maxOccurs > 1 {
				e.Plural, err = true, nil
			}
''','''			many, perr := repeats(attr.Value)
			if perr != nil {
				return perr
			}
			if many {
				e.Plural = true
			}
'''),("xmlElement.go",'func findElement','''// repeats reports whether an occurrence count allows more than one.
func repeats(value string) (bool, error) {
	if value == "unbounded" {
		return true, nil
	}
	n, err := strconv.Atoi(value)
	if err != nil {
		return false, err
	}
	return n > 1, nil
}

func findElement''')]),
("R05 group guards merged","--",[("xmlGroup.go",'''	if opt.ComplexType.Len() == 0 {
		if opt.InGroup == 0 {
			opt.InGroup++
			opt.CurrentEle = opt.InElement
			opt.Group.Push(&group)
			return
		}
		if opt.InGroup > 0 {
			opt.InGroup++
			opt.Group.Peek().(*Group).Groups = append(opt.Group.Peek().(*Group).Groups, group)
			return
		}

	}
	if opt.ComplexType.Len() > 0 {
		if !inGroups(&group, opt.ComplexType.Peek().(*ComplexType).Groups) {
			opt.ComplexType.Peek().(*ComplexType).Groups = append(opt.ComplexType.Peek().(*ComplexType).Groups, group)
		}
		return
	}
	return
''','''	if !opt.ComplexType.Empty() {
		owner := opt.ComplexType.Peek().(*ComplexType)
		for _, g := range owner.Groups {
			if g.Name == group.Name {
				return
			}
		}
		owner.Groups = append(owner.Groups, group)
		return
	}
	switch {
	case opt.InGroup == 0:
		opt.CurrentEle = opt.InElement
		opt.Group.Push(&group)
		opt.InGroup = 1
	case opt.InGroup > 0:
		opt.InGroup++
		outer := opt.Group.Peek().(*Group)
		outer.Groups = append(outer.Groups, group)
	}
	return
'''),("xmlGroup.go",'''func inGroups(group *Group, groups []Group) bool {
	for _, g := range groups {
		if g.Name == group.Name {
			return true
		}
	}
	return false
}
''','')]),
# --- emitters
("R06 go builder","--",[("genGo.go",'''		content := " struct {\\n"
		fieldName := genGoFieldName(v.Name, true)
		if fieldName != v.Name {
			gen.ImportEncodingXML = true
			content += fmt.Sprintf("\\tXMLName\\txml.Name\\t`xml:\\"%s\\"`\\n", v.Name)
		}
		for _, attribute := range v.Attributes {
			var optional string
			if attribute.Optional {
				optional = `,omitempty`
			}
			content += fmt.Sprintf("\\t%sAttr\\t%s\\t`xml:\\"%s,attr%s\\"`\\n", genGoFieldName(attribute.Name, false), gen.goFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), attribute.Name, optional)
		}
		content += "}\\n"
		gen.StructAST[v.Name] = content
		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
''','''		fieldName := genGoFieldName(v.Name, true)
		var b strings.Builder
		b.WriteString(" struct {\\n")
		if v.Name != fieldName {
			gen.ImportEncodingXML = true
			b.WriteString("\\tXMLName\\txml.Name\\t`xml:\\"" + v.Name + "\\"`\\n")
		}
		for i := range v.Attributes {
			gen.goAttributeField(&b, &v.Attributes[i])
		}
		b.WriteString("}\\n")
		content := b.String()
		gen.StructAST[v.Name] = content
		gen.Field += genFieldComment(fieldName, v.Doc, "//") + "type " + fieldName + content
'''),("genGo.go",'// GoElement generates','''func (gen *CodeGenerator) goAttributeField(b *strings.Builder, attribute *Attribute) {
	base := getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)
	fmt.Fprintf(b, "\\t%sAttr\\t%s\\t`xml:\\"%s,attr", genGoFieldName(attribute.Name, false), gen.goFieldType(base), attribute.Name)
	if attribute.Optional {
		b.WriteString(",omitempty")
	}
	b.WriteString("\\"`\\n")
}

// GoElement generates''')]),
("R07 go early return","--",[("genGo.go",'''func (gen *CodeGenerator) GoElement(v *Element) {
	if _, ok := gen.StructAST[v.Name]; !ok {
		var plural string
		if v.Plural {
			plural = "[]"
		}
		content := fmt.Sprintf("\\t%s%s\\n", plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
		gen.StructAST[v.Name] = content
		fieldName := genGoFieldName(v.Name, true)
		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
	}
}
''','''func (gen *CodeGenerator) GoElement(v *Element) {
	if _, ok := gen.StructAST[v.Name]; ok {
		return
	}
	gen.goNamed(v.Name, v.Doc, v.Type, v.Plural)
}

// goNamed declares a type of one value or of many.
func (gen *CodeGenerator) goNamed(name, doc, typeName string, many bool) {
	text := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(typeName), gen.ProtoTree))
	if many {
		text = "[]" + text
	}
	gen.StructAST[name] = "\\t" + text + "\\n"
	declared := genGoFieldName(name, true)
	gen.Field = gen.Field + genFieldComment(declared, doc, "//") + fmt.Sprintf("type %s%s", declared, gen.StructAST[name])
}
''')]),
("R08 fieldname fields","--",[("genGo.go",'''	for _, str := range strings.Split(name, ":") {
		fieldName += MakeFirstUpperCase(str)
	}
	var tmp string
	for _, str := range strings.Split(fieldName, ".") {
		tmp += MakeFirstUpperCase(str)
	}
	fieldName = tmp
	fieldName = strings.Replace(strings.Replace(fieldName, "-", "", -1), "_", "", -1)
	if unique {''','''	for _, separator := range []string{":", "."} {
		parts := strings.Split(name, separator)
		for i, part := range parts {
			parts[i] = MakeFirstUpperCase(part)
		}
		name = strings.Join(parts, "")
	}
	fieldName = strings.ReplaceAll(strings.ReplaceAll(name, "-", ""), "_", "")
	if unique {''')]),
("R09 gen loop index","--",[("genC.go",'	for _, ele := range gen.ProtoTree {\n		if ele == nil {\n			continue\n		}\n','	for i := 0; i < len(gen.ProtoTree); i++ {\n		ele := gen.ProtoTree[i]\n		if ele == nil {\n			continue\n		}\n')]),
("R10 gen shared loop","--",[("genJava.go",'''	for _, ele := range gen.ProtoTree {
		if ele == nil {
			continue
		}
		funcName := fmt.Sprintf("Java%s", reflect.TypeOf(ele).String()[6:])
		callFuncByName(gen, funcName, []reflect.Value{reflect.ValueOf(ele)})
	}
''','''	gen.each("Java")
'''),("genJava.go",'// GenJava generate','''func (gen *CodeGenerator) each(prefix string) {
	for _, ele := range gen.ProtoTree {
		if ele != nil {
			kind := reflect.TypeOf(ele).Elem().Name()
			callFuncByName(gen, prefix+kind, []reflect.Value{reflect.ValueOf(ele)})
		}
	}
}

// GenJava generate''')]),
("R11 type switch dispatch","--",[("genRust.go",'''		funcName := fmt.Sprintf("Rust%s", reflect.TypeOf(ele).String()[6:])
		callFuncByName(gen, funcName, []reflect.Value{reflect.ValueOf(ele)})
''','''		switch v := ele.(type) {
		case *SimpleType:
			gen.RustSimpleType(v)
		case *ComplexType:
			gen.RustComplexType(v)
		case *Group:
			gen.RustGroup(v)
		case *AttributeGroup:
			gen.RustAttributeGroup(v)
		case *Element:
			gen.RustElement(v)
		case *Attribute:
			gen.RustAttribute(v)
		}
'''),("genRust.go",'	"reflect"\n','')]),
("R12 getBase","--",[("utils.go",'''	for _, ele := range XSDSchema {
		switch v := ele.(type) {
		case *SimpleType:
			if !v.List && !v.Union && v.Name == name {
				return v.Base
			}
		case *Attribute:
			if v.Name == name {
				return v.Type
			}
		case *Element:
			if v.Name == name {
				return v.Type
			}
		}
	}
	return name
''','''	for i := range XSDSchema {
		if simple, ok := XSDSchema[i].(*SimpleType); ok && simple.Name == name && !(simple.List || simple.Union) {
			return simple.Base
		}
		if attribute, ok := XSDSchema[i].(*Attribute); ok && name == attribute.Name {
			return attribute.Type
		}
		if element, ok := XSDSchema[i].(*Element); ok && name == element.Name {
			return element.Type
		}
	}
	return name
''')]),
("R13 prefix by index","--",[("utils.go",'''	split := strings.Split(str, ":")
	if len(split) == 2 {
		ns = split[0]
		return
	}
	return
''','''	if split := strings.Split(str, ":"); len(split) == 2 {
		return split[0]
	}
	return ""
''')]),
("R14 includes sorted keys helper","--",[("parser.go",'''		includes := make([]string, 0, len(opt.IncludeMap))
		for include := range opt.IncludeMap {
			includes = append(includes, include)
		}
		sort.Strings(includes)
		for _, include := range includes {
''','''		for _, include := range sortedNames(opt.IncludeMap) {
'''),("parser.go",'// GetValueType convert','''// sortedNames returns the keys of a set in order.
func sortedNames(set map[string]bool) []string {
	var names []string
	for name := range set {
		names = append(names, name)
	}
	sort.Slice(names, func(i, j int) bool { return names[i] < names[j] })
	return names
}

// GetValueType convert''')]),
("R15 nested parser helper","--",[("parser.go",'''			parser := NewParser(&Options{
				FilePath:            include,
				OutputDir:           opt.OutputDir,
				Extract:             true,
				Lang:                opt.Lang,
				IncludeMap:          opt.IncludeMap,
				LocalNameNSMap:      make(map[string]string),
				NSSchemaLocationMap: make(map[string]string),
				ParseFileList:       opt.ParseFileList,
				ParseFileMap:        opt.ParseFileMap,
				ProtoTree:           make([]interface{}, 0),
			})
			if err = parser.Parse(); err != nil {
				return
			}
			if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) {
				valueType = vt
			}
''','''			var tree []interface{}
			if tree, err = opt.extract(include); err != nil {
				return
			}
			if vt := getBasefromSimpleType(trimNSPrefix(value), tree); vt != trimNSPrefix(value) {
				valueType = vt
			}
'''),("parser.go",'// GetValueType convert','''func (opt *Options) extract(include string) ([]interface{}, error) {
	parser := NewParser(&Options{
		FilePath:            include,
		OutputDir:           opt.OutputDir,
		Extract:             true,
		Lang:                opt.Lang,
		IncludeMap:          opt.IncludeMap,
		LocalNameNSMap:      map[string]string{},
		NSSchemaLocationMap: map[string]string{},
		ParseFileList:       opt.ParseFileList,
		ParseFileMap:        opt.ParseFileMap,
		ProtoTree:           []interface{}{},
	})
	if err := parser.Parse(); err != nil {
		return nil, err
	}
	return parser.ProtoTree, nil
}

// GetValueType convert''')]),
("R16 parse events split","--",[("parser.go",'''		switch element := token.(type) {
		case xml.StartElement:

			opt.InElement = element.Name.Local
			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
				return
			}

		case xml.EndElement:
			funcName := fmt.Sprintf("End%s", MakeFirstUpperCase(element.Name.Local))
			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
				return
			}
		case xml.CharData:
			if err = opt.OnCharData(string(element), opt.ProtoTree); err != nil {
				return
			}
		default:
		}
''','''		if err = opt.handle(token); err != nil {
			return
		}
'''),("parser.go",'// GetValueType convert','''// handle passes a token to the handler of its element.
func (opt *Options) handle(token xml.Token) error {
	switch element := token.(type) {
	case xml.StartElement:
		opt.InElement = element.Name.Local
		return callFuncByName(opt, "On"+MakeFirstUpperCase(opt.InElement), []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)})
	case xml.EndElement:
		return callFuncByName(opt, "End"+MakeFirstUpperCase(element.Name.Local), []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)})
	case xml.CharData:
		return opt.OnCharData(string(element), opt.ProtoTree)
	}
	return nil
}

// GetValueType convert''')]),
("R17 reset helper","--",[("parser.go",'''	opt.InElement = ""
	opt.CurrentEle = ""
	opt.InGroup = 0
	opt.InUnion = false
	opt.InAttributeGroup = false

	opt.SimpleType = NewStack()
	opt.ComplexType = NewStack()
	opt.Element = NewStack()
	opt.Attribute = NewStack()
	opt.Group = NewStack()
	opt.AttributeGroup = NewStack()
	opt.Choice = NewStack()
''','''	opt.reset()
'''),("parser.go",'// GetValueType convert','''func (opt *Options) reset() {
	opt.InElement, opt.CurrentEle = "", ""
	opt.InGroup, opt.InUnion, opt.InAttributeGroup = 0, false, false
	for _, stack := range []**Stack{&opt.SimpleType, &opt.ComplexType, &opt.Element, &opt.Attribute, &opt.Group, &opt.AttributeGroup, &opt.Choice} {
		*stack = NewStack()
	}
}

// GetValueType convert''')]),
("R18 generate helper","--",[("parser.go",'''		path := filepath.Join(opt.OutputDir, opt.relativePath())
		if err = PrepareOutputDir(filepath.Dir(path)); err != nil {
			return
		}
		generator := &CodeGenerator{
			Lang:      opt.Lang,
			Package:   opt.Package,
			File:      path,
			ProtoTree: opt.ProtoTree,
			StructAST: map[string]string{},
		}
		funcName := fmt.Sprintf("Gen%s", MakeFirstUpperCase(opt.Lang))
		if err = callFuncByName(generator, funcName, []reflect.Value{}); err != nil {
			return
		}
	}
	return
''','''		return opt.generate()
	}
	return nil
'''),("parser.go",'// GetValueType convert','''func (opt *Options) generate() error {
	out := filepath.Join(opt.OutputDir, opt.relativePath())
	if err := PrepareOutputDir(filepath.Dir(out)); err != nil {
		return err
	}
	var generator CodeGenerator
	generator.Lang = opt.Lang
	generator.Package = opt.Package
	generator.File = out
	generator.ProtoTree = opt.ProtoTree
	generator.StructAST = make(map[string]string)
	return callFuncByName(&generator, "Gen"+MakeFirstUpperCase(opt.Lang), nil)
}

// GetValueType convert''')]),
("R19 stack on slice","--",[("stack.go",'import "container/list"\n\n',''),("stack.go",'	list *list.List\n','	items []interface{}\n'),("stack.go",'	list := list.New()\n	return &Stack{list}\n','	return &Stack{}\n'),("stack.go",'	stack.list.PushBack(value)','	stack.items = append(stack.items, value)'),("stack.go",'''	e := stack.list.Back()
	if e != nil {
		stack.list.Remove(e)
		return e.Value
	}
	return nil
''','''	last := len(stack.items) - 1
	if last < 0 {
		return nil
	}
	value := stack.items[last]
	stack.items = stack.items[:last]
	return value
'''),("stack.go",'''	e := stack.list.Back()
	if e != nil {
		return e.Value
	}
	return nil
''','''	if n := len(stack.items); n > 0 {
		return stack.items[n-1]
	}
	return nil
'''),("stack.go",'return stack.list.Len() == 0','return len(stack.items) == 0'),("stack.go",'return stack.list.Len()\n','return len(stack.items)\n')]),
("R20 ts helper","--",[("genTypeScript.go",'			optional = ` | null`\n','			optional = " | null" // may be missing\n',0)]) if False else ("R20 comment","--",[("genTypeScript.go",'package xgen\n','package xgen\n\n// a comment\n')]),
("R21 main loop","--",[("cmd/xgen/xgen.go",'''		if err = xgen.NewParser(&xgen.Options{
			FilePath:            file,
			InputDir:            cfg.I,
			OutputDir:           cfg.O,
			Lang:                cfg.Lang,
			Package:             cfg.Pkg,
			IncludeMap:          make(map[string]bool),
			LocalNameNSMap:      make(map[string]string),
			NSSchemaLocationMap: make(map[string]string),
			ParseFileList:       make(map[string]bool),
			ParseFileMap:        make(map[string][]interface{}),
			ProtoTree:           make([]interface{}, 0),
			RemoteSchema:        make(map[string][]byte),
		}).Parse(); err != nil {
			fmt.Printf("process error on %s: %s\\r\\n", file, err.Error())
			os.Exit(1)
		}
''','''		if err := process(cfg, file); err != nil {
			fmt.Printf("process error on %s: %v\\r\\n", file, err)
			os.Exit(1)
		}
'''),("cmd/xgen/xgen.go",'func main() {','''func process(cfg *Config, file string) error {
	parser := xgen.NewParser(&xgen.Options{
		FilePath:            file,
		InputDir:            cfg.I,
		OutputDir:           cfg.O,
		Lang:                cfg.Lang,
		Package:             cfg.Pkg,
		IncludeMap:          map[string]bool{},
		LocalNameNSMap:      map[string]string{},
		NSSchemaLocationMap: map[string]string{},
		ParseFileList:       map[string]bool{},
		ParseFileMap:        map[string][]interface{}{},
		RemoteSchema:        map[string][]byte{},
	})
	return parser.Parse()
}

func main() {''')]),
("R22 comment helper","--",[("utils.go",'''	if doc == "" {
		return fmt.Sprintf("\\r\\n%s %s ...\\r\\n", prefix, name)
	}
	return fmt.Sprintf("\\r\\n%s %s is %s\\r\\n", prefix, name, docReplacer.Replace(doc))
''','''	text := "..."
	if doc != "" {
		text = "is " + docReplacer.Replace(doc)
	}
	return "\\r\\n" + prefix + " " + name + " " + text + "\\r\\n"
''')]),
("R23 reverse search","--",[("xmlElement.go",'''	for i, ele := range elements {
		if element.Name == ele.Name {
			return &ele, i
		}
	}
	return nil, -1
''','''	for i := 0; i < len(elements); i++ {
		if elements[i].Name == element.Name {
			found := elements[i]
			return &found, i
		}
	}
	return nil, -1
''')]),
("R24 stmt nothing","--",[("xmlElement.go",'	e := Element{}\n','	e := Element{}\n	_ = len(ele.Attr)\n'),("genGo.go",'		content := " struct {\\n"\n','		_ = v.Name\n		content := " struct {\\n"\n',0),("parser.go",'	opt.FileDir = filepath.Dir(opt.FilePath)\n','	opt.FileDir = filepath.Dir(opt.FilePath)\n	_ = opt.Lang\n')]),
("R25 swap statements","--",[("xmlAttributeGroup.go",'		opt.InAttributeGroup = true\n		opt.CurrentEle = opt.InElement\n		opt.AttributeGroup.Push(&attributeGroup)\n','		opt.AttributeGroup.Push(&attributeGroup)\n		opt.CurrentEle = opt.InElement\n		opt.InAttributeGroup = true\n'),("xmlAttributeGroup.go",'		opt.ProtoTree = append(opt.ProtoTree, opt.AttributeGroup.Pop())\n		opt.CurrentEle = ""\n		opt.InAttributeGroup = false\n','		opt.InAttributeGroup = false\n		opt.CurrentEle = ""\n		opt.ProtoTree = append(opt.ProtoTree, opt.AttributeGroup.Pop())\n')]),
("R26 typed top helper","--",[("xmlExtension.go",'			if opt.ComplexType.Peek() != nil {\n','			if opt.topComplex() != nil {\n'),("xmlExtension.go",'// OnExtension','''func (opt *Options) topComplex() *ComplexType {
	if opt.ComplexType.Empty() {
		return nil
	}
	return opt.ComplexType.Peek().(*ComplexType)
}

// OnExtension''')]),
("R27 sort.Slice pairs","--",[("utils.go",'	sort.Sort(pl)\n','	sort.Slice(pl, pl.Less)\n')]),
("R28 go filewrite","--",[("genGo.go",'''	if _, err = f.Write(source); err != nil {
		return err
	}
	return f.Close()
''','''	_, err = f.Write(source)
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	return err
''')]),
("R29 C while","--",[("genC.go",'func (gen *CodeGenerator) CGroup(v *Group) {\n','func (gen *CodeGenerator) CGroup(v *Group) {\n	group := v\n	v = group\n')]),
]
