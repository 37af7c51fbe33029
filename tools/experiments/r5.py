import re
exec(open('/tmp/mut/r2.py').read().split('M=[]')[0])
M=[]
def add(n,*e): M.append((n,"--",list(e)))
ALLCAP='''	for _, str := range strings.Split(name, ":") {
		fieldName += MakeFirstUpperCase(str)
	}
	var tmp string
	for _, str := range strings.Split(fieldName, ".") {
		tmp += MakeFirstUpperCase(str)
	}
	fieldName = tmp
'''
add("E01 capparts helper",sub('genJava.go','genJavaFieldName',(ALLCAP,'	fieldName = capitalizeParts(capitalizeParts(name, ":"), ".")\n')),
 sub('genTypeScript.go','genTypeScriptFieldName',(ALLCAP,'	fieldName = capitalizeParts(capitalizeParts(name, ":"), ".")\n')),
 ('utils.go','// callFuncByName calls','''// capitalizeParts joins the parts of a name, each starting with an upper case letter.
func capitalizeParts(name, sep string) string {
	parts := strings.Split(name, sep)
	for i := range parts {
		parts[i] = MakeFirstUpperCase(parts[i])
	}
	return strings.Join(parts, "")
}

// callFuncByName calls'''))
add("E02 unique helper",*[sub(f,n,('''	if unique {
		fieldNameCount[fieldName]++
		if count := fieldNameCount[fieldName]; count != 1 {
			fieldName = fmt.Sprintf("%s%d", fieldName, count)
		}
	}
	return
''','''	if unique {
		fieldName = uniqueName(fieldName)
	}
	return
''')) for f,n in (('genJava.go','genJavaFieldName'),('genTypeScript.go','genTypeScriptFieldName'))],
 ('utils.go','// callFuncByName calls','''// uniqueName numbers the second and later declarations of a name.
func uniqueName(name string) string {
	count := fieldNameCount[name] + 1
	fieldNameCount[name] = count
	if count == 1 {
		return name
	}
	return name + strconv.Itoa(count)
}

// callFuncByName calls'''),('utils.go','	"sort"\n','	"sort"\n	"strconv"\n'))
add("E03 java element list helper",sub('genJava.go','JavaComplexType',('''			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
			if element.Plural {
				fieldType = fmt.Sprintf("List<%s>", fieldType)
			}
''','''			fieldType := gen.javaMemberType(element.Type, element.Plural)
'''),('''			var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
			if group.Plural {
				fieldType = fmt.Sprintf("List<%s>", fieldType)
			}
''','''			fieldType := gen.javaMemberType(group.Ref, group.Plural)
''')),('genJava.go','func isBuiltInJavaType','''func (gen *CodeGenerator) javaMemberType(name string, plural bool) string {
	base := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(name), gen.ProtoTree))
	if !plural {
		return base
	}
	return "List<" + base + ">"
}

func isBuiltInJavaType'''))
add("E04 java early return",sub('genJava.go','JavaGroup',('	if _, ok := gen.StructAST[v.Name]; !ok {\n','	if _, ok := gen.StructAST[v.Name]; ok {\n		return\n	}\n	{\n')))
add("E05 java builder",sub('genJava.go','JavaAttributeGroup',('content := " {\\n"','var b strings.Builder\n		b.WriteString(" {\\n")'),('content += fmt.Sprintf(','fmt.Fprintf(&b, '),('content += "}\\n"','b.WriteString("}\\n")'),('gen.StructAST[v.Name] = content','gen.StructAST[v.Name] = b.String()')))
add("E06 java declare helper",sub('genJava.go','JavaGroup',('''		gen.StructAST[v.Name] = content
		fieldName := genJavaFieldName(v.Name, true)
		gen.Field += fmt.Sprintf("%spublic class %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
''','''		gen.declareJavaClass(v.Name, v.Doc, content)
''')),sub('genJava.go','JavaAttributeGroup',('''		gen.StructAST[v.Name] = content
		fieldName := genJavaFieldName(v.Name, true)
		gen.Field += fmt.Sprintf("%spublic class %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
''','''		gen.declareJavaClass(v.Name, v.Doc, content)
''')),('genJava.go','func isBuiltInJavaType','''func (gen *CodeGenerator) declareJavaClass(name, doc, body string) {
	gen.StructAST[name] = body
	class := genJavaFieldName(name, true)
	gen.Field += genFieldComment(class, doc, "//") + "public class " + class + body
}

func isBuiltInJavaType'''))
add("E07 element switch attrs",sub('xmlElement.go','OnElement',('''		if attr.Name.Local == "ref" {
			e.Name = attr.Value
			e.Type, err = opt.GetValueType(attr.Value, protoTree)
			if err != nil {
				return
			}
		}

		if attr.Name.Local == "name" {
			e.Name = attr.Value
		}
		if attr.Name.Local == "type" {
			e.Type, err = opt.GetValueType(attr.Value, protoTree)
			if err != nil {
				return
			}
		}
		if attr.Name.Local == "maxOccurs" {
			var maxOccurs int
			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
				return
			}
			if attr.Value == "unbounded" || maxOccurs > 1 {
				e.Plural, err = true, nil
			}
		}
		if attr.Name.Local == "unbounded" {
			if attr.Value != "0" {
				e.Plural = true
			}
		}
''','''		switch value := attr.Value; attr.Name.Local {
		case "ref":
			e.Name = value
			if e.Type, err = opt.GetValueType(value, protoTree); err != nil {
				return err
			}
		case "name":
			e.Name = value
		case "type":
			if e.Type, err = opt.GetValueType(value, protoTree); err != nil {
				return err
			}
		case "maxOccurs":
			if value == "unbounded" {
				e.Plural = true
				continue
			}
			n, atoiErr := strconv.Atoi(value)
			if atoiErr != nil {
				return atoiErr
			}
			e.Plural = e.Plural || n > 1
		case "unbounded":
			e.Plural = e.Plural || value != "0"
		}
''')))
add("E08 repeatable helper",sub('xmlElement.go','OnElement',('''			var maxOccurs int
			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
				return
			}
			if attr.Value == "unbounded" || maxOccurs > 1 {
				e.Plural, err = true, nil
			}
''','''			var many bool
			if many, err = repeatable(attr.Value); err != nil {
				return
			}
			if many {
				e.Plural = true
			}
''')),sub('xmlGroup.go','OnGroup',('''			var maxOccurs int
			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
				return
			}
			if attr.Value == "unbounded" || maxOccurs > 1 {
				group.Plural, err = true, nil
			}
''','''			var many bool
			if many, err = repeatable(attr.Value); err != nil {
				return
			}
			group.Plural = group.Plural || many
''')),('xmlGroup.go','	"strconv"\n',''),('xmlElement.go','func findElement','''func repeatable(maxOccurs string) (bool, error) {
	if maxOccurs == "unbounded" {
		return true, nil
	}
	n, err := strconv.Atoi(maxOccurs)
	return n > 1, err
}

func findElement'''))
add("E09 find element closure",sub('xmlElement.go','OnElement',('''		element, i := findElement(&e, opt.ComplexType.Peek().(*ComplexType).Elements)
''','''		owner := opt.ComplexType.Peek().(*ComplexType)
'''),('''		if element != nil && element.Type == e.Type {
			element.Plural = element.Plural || e.Plural
			opt.ComplexType.Peek().(*ComplexType).Elements[i] = *element
		} else {
			opt.ComplexType.Peek().(*ComplexType).Elements = append(opt.ComplexType.Peek().(*ComplexType).Elements, e)
		}
		return
''','''		for i := range owner.Elements {
			if same := &owner.Elements[i]; same.Name == e.Name && same.Type == e.Type {
				same.Plural = same.Plural || e.Plural
				return
			}
		}
		owner.Elements = append(owner.Elements, e)
		return
''')),('xmlElement.go',fn('xmlElement.go','findElement'),''))
add("E10 ongroup inverted",sub('xmlGroup.go','OnGroup',('''	if opt.ComplexType.Len() == 0 {
		if opt.InGroup == 0 {
			opt.InGroup++
			opt.CurrentEle = opt.InElement
			opt.Group.Push(&group)
			return
		}
		if opt.InGroup > 0 {
			opt.InGroup++
			opt.Group.Peek().(*Group).Groups = append(opt.Group.Peek().(*Group).Groups, group)
			return
		}

	}
	if opt.ComplexType.Len() > 0 {
		if !inGroups(&group, opt.ComplexType.Peek().(*ComplexType).Groups) {
			opt.ComplexType.Peek().(*ComplexType).Groups = append(opt.ComplexType.Peek().(*ComplexType).Groups, group)
		}
		return
	}
	return
''','''	if !opt.ComplexType.Empty() {
		owner := opt.ComplexType.Peek().(*ComplexType)
		if inGroups(&group, owner.Groups) {
			return
		}
		owner.Groups = append(owner.Groups, group)
		return
	}
	switch {
	case opt.InGroup == 0:
		opt.CurrentEle = opt.InElement
		opt.Group.Push(&group)
		opt.InGroup++
	case opt.InGroup > 0:
		outer := opt.Group.Peek().(*Group)
		outer.Groups = append(outer.Groups, group)
		opt.InGroup++
	}
	return
''')))
add("E11 endgroup else",sub('xmlGroup.go','EndGroup',('''	if ele.Name.Local == opt.CurrentEle && opt.InGroup == 1 {
		opt.ProtoTree = append(opt.ProtoTree, opt.Group.Pop())
		opt.CurrentEle = ""
		opt.InGroup--
	}
	if ele.Name.Local == opt.CurrentEle {
		opt.InGroup--
	}
	return
''','''	if opt.CurrentEle != ele.Name.Local {
		return nil
	}
	opt.InGroup--
	if opt.InGroup == 0 {
		opt.CurrentEle = ""
		opt.ProtoTree = append(opt.ProtoTree, opt.Group.Pop())
	}
	return nil
''')))
add("E12 union once",sub('xmlUnion.go','OnUnion',('''	opt.SimpleType.Peek().(*SimpleType).Union = true
	opt.SimpleType.Peek().(*SimpleType).MemberTypes = make(map[string]string)
''','''	simple := opt.SimpleType.Peek().(*SimpleType)
	members := map[string]string{}
	simple.Union, simple.MemberTypes = true, members
'''),('''		if attr.Name.Local == "memberTypes" {
			memberTypes := strings.Fields(attr.Value)
			for _, memberType := range memberTypes {
				opt.SimpleType.Peek().(*SimpleType).MemberTypes[trimNSPrefix(memberType)], err = opt.GetValueType(memberType, protoTree)
				if err != nil {
					return
				}
			}
			continue
		}
''','''		if attr.Name.Local != "memberTypes" {
			continue
		}
		for _, member := range strings.Fields(attr.Value) {
			var resolved string
			resolved, err = opt.GetValueType(member, protoTree)
			members[trimNSPrefix(member)] = resolved
			if err != nil {
				return
			}
		}
''')))
add("E13 restriction local",sub('xmlRestriction.go','OnRestriction',('''			if opt.SimpleType.Peek() != nil {
				opt.SimpleType.Peek().(*SimpleType).Base, err = opt.GetValueType(valueType, protoTree)
				if err != nil {
					return
				}
				if opt.SimpleType.Peek().(*SimpleType).Name == "" {
					opt.SimpleType.Peek().(*SimpleType).Name = attr.Value
				}
			}
''','''			simple, ok := opt.SimpleType.Peek().(*SimpleType)
			if !ok {
				continue
			}
			if simple.Base, err = opt.GetValueType(valueType, protoTree); err != nil {
				return
			}
			if simple.Name == "" {
				simple.Name = attr.Value
			}
''')),sub('xmlRestriction.go','EndRestriction',('''	if !opt.Element.Empty() {
		if !opt.ComplexType.Empty() && len(opt.ComplexType.Peek().(*ComplexType).Elements) > 0 {
			opt.ComplexType.Peek().(*ComplexType).Elements[len(opt.ComplexType.Peek().(*ComplexType).Elements)-1] = *opt.Element.Peek().(*Element)
		}
	}
	return
''','''	if opt.Element.Empty() || opt.ComplexType.Empty() {
		return
	}
	elements := opt.ComplexType.Peek().(*ComplexType).Elements
	if last := len(elements) - 1; last >= 0 {
		elements[last] = *opt.Element.Peek().(*Element)
	}
	return
''')))
add("E14 prepare mkdirall",sub('utils.go','PrepareOutputDir',('''	_, err := os.Stat(path)
	if os.IsNotExist(err) {
		if err := os.MkdirAll(path, 0755); err != nil {
			return err
		}
	}
	return nil
''','''	if _, err := os.Stat(path); !os.IsNotExist(err) {
		return nil
	}
	return os.MkdirAll(path, 0755)
''')))
add("E15 base helper fields",sub('utils.go','getBasefromSimpleType',('''		switch v := ele.(type) {
		case *SimpleType:
			if !v.List && !v.Union && v.Name == name {
				return v.Base
			}
		case *Attribute:
			if v.Name == name {
				return v.Type
			}
		case *Element:
			if v.Name == name {
				return v.Type
			}
		}
''','''		if declared, base, ok := aliasOf(ele); ok && declared == name {
			return base
		}
''')),('utils.go','func getNSPrefix','''func aliasOf(ele interface{}) (name, base string, ok bool) {
	switch v := ele.(type) {
	case *SimpleType:
		return v.Name, v.Base, !(v.List || v.Union)
	case *Attribute:
		return v.Name, v.Type, true
	case *Element:
		return v.Name, v.Type, true
	default:
		return "", "", false
	}
}

func getNSPrefix'''))
add("E16 parse helper",sub('parser.go','Parse',('''		case xml.StartElement:

			opt.InElement = element.Name.Local
			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
				return
			}

		case xml.EndElement:
			funcName := fmt.Sprintf("End%s", MakeFirstUpperCase(element.Name.Local))
			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
				return
			}
		case xml.CharData:
			if err = opt.OnCharData(string(element), opt.ProtoTree); err != nil {
				return
			}
		default:
		}
''','''		case xml.StartElement:
			opt.InElement = element.Name.Local
			err = opt.dispatch("On", element.Name.Local, reflect.ValueOf(element))
		case xml.EndElement:
			err = opt.dispatch("End", element.Name.Local, reflect.ValueOf(element))
		case xml.CharData:
			err = opt.OnCharData(string(element), opt.ProtoTree)
		}
		if err != nil {
			return
		}
''')),('parser.go','// relativePath returns','''func (opt *Options) dispatch(prefix, local string, token reflect.Value) error {
	return callFuncByName(opt, prefix+MakeFirstUpperCase(local), []reflect.Value{token, reflect.ValueOf(opt.ProtoTree)})
}

// relativePath returns'''))
add("E17 reset helper",sub('parser.go','Parse',('''	opt.InElement = ""
	opt.CurrentEle = ""
	opt.InGroup = 0
	opt.InUnion = false
	opt.InAttributeGroup = false

	opt.SimpleType = NewStack()
	opt.ComplexType = NewStack()
	opt.Element = NewStack()
	opt.Attribute = NewStack()
	opt.Group = NewStack()
	opt.AttributeGroup = NewStack()
	opt.Choice = NewStack()
''','''	opt.reset()
''')),('parser.go','// relativePath returns','''func (opt *Options) reset() {
	for _, s := range []**Stack{&opt.SimpleType, &opt.ComplexType, &opt.Element, &opt.Attribute, &opt.Group, &opt.AttributeGroup, &opt.Choice} {
		*s = NewStack()
	}
	opt.InElement, opt.CurrentEle = "", ""
	opt.InGroup, opt.InUnion, opt.InAttributeGroup = 0, false, false
}

// relativePath returns'''))
add("E18 generate helper",sub('parser.go','Parse',('''		path := filepath.Join(opt.OutputDir, opt.relativePath())
		if err = PrepareOutputDir(filepath.Dir(path)); err != nil {
			return
		}
		generator := &CodeGenerator{
			Lang:      opt.Lang,
			Package:   opt.Package,
			File:      path,
			ProtoTree: opt.ProtoTree,
			StructAST: map[string]string{},
		}
		funcName := fmt.Sprintf("Gen%s", MakeFirstUpperCase(opt.Lang))
		if err = callFuncByName(generator, funcName, []reflect.Value{}); err != nil {
			return
		}
''','''		err = opt.generate()
''')),('parser.go','// relativePath returns','''func (opt *Options) generate() error {
	target := filepath.Join(opt.OutputDir, opt.relativePath())
	if err := PrepareOutputDir(filepath.Dir(target)); err != nil {
		return err
	}
	return callFuncByName(&CodeGenerator{
		File:      target,
		Lang:      opt.Lang,
		Package:   opt.Package,
		ProtoTree: opt.ProtoTree,
		StructAST: make(map[string]string),
	}, "Gen"+MakeFirstUpperCase(opt.Lang), nil)
}

// relativePath returns'''))
add("E19 endattribute switch",sub('xmlAttribute.go','EndAttribute',(fn('xmlAttribute.go','EndAttribute').split('\n',1)[1],'''	attribute, ok := opt.Attribute.Pop().(*Attribute)
	if !ok {
		return
	}
	switch {
	case opt.AttributeGroup.Len() > 0:
		owner := opt.AttributeGroup.Peek().(*AttributeGroup)
		owner.Attributes = append(owner.Attributes, *attribute)
	case opt.ComplexType.Len() > 0:
		owner := opt.ComplexType.Peek().(*ComplexType)
		owner.Attributes = append(owner.Attributes, *attribute)
	default:
		opt.ProtoTree = append(opt.ProtoTree, attribute)
	}
	return
}
''')))
add("E20 trim ns index",body('utils.go','trimNSPrefix','''func trimNSPrefix(str string) (name string) {
	if i := strings.Index(str, ":"); i >= 0 && i == strings.LastIndex(str, ":") {
		return str[i+1:]
	}
	return str
}
'''),body('utils.go','getNSPrefix','''func getNSPrefix(str string) (ns string) {
	if strings.Count(str, ":") != 1 {
		return ""
	}
	return str[:strings.IndexByte(str, ':')]
}
'''))
add("E21 doc comment lines",sub('utils.go','genFieldComment',('''	if doc == "" {
		return fmt.Sprintf("\\r\\n%s %s ...\\r\\n", prefix, name)
	}
	return fmt.Sprintf("\\r\\n%s %s is %s\\r\\n", prefix, name, docReplacer.Replace(doc))
''','''	text := "..."
	if doc != "" {
		text = "is " + docReplacer.Replace(doc)
	}
	return newLine + name + " " + text + "\\r\\n"
''')))
add("E22 ts enum assign",sub('genTypeScript.go','TypeScriptSimpleType',('''			switch baseType {
			case "string":
				content += fmt.Sprintf("\\t%s = '%s',\\n", enum, enum)
			case "number":
				content += fmt.Sprintf("\\tEnum%s = %s,\\n", enum, enum)
			default:
				content += fmt.Sprintf("\\tEnum%s = '%s',\\n", enum, enum)
''','''			prefix, quote := "Enum", "'"
			if baseType == "string" {
				prefix = ""
			} else if baseType == "number" {
				quote = ""
			}
			{
				content += "\\t" + prefix + enum + " = " + quote + enum + quote + ",\\n"
''')))
add("E23 rust buffer",sub('genRust.go','GenRust',('''	f, err := os.Create(gen.FileWithExtension(".rs"))
	if err != nil {
		return err
	}
	defer f.Close()
''',''),('''	source := []byte(fmt.Sprintf("%s\\n\\n%s\\n%s", copyright, extern, gen.Field))
	if _, err = f.Write(source); err != nil {
		return err
	}
	return f.Close()
''','''	f, err := os.Create(gen.FileWithExtension(".rs"))
	if err != nil {
		return err
	}
	_, err = fmt.Fprintf(f, "%s\\n\\n%s\\n%s", copyright, extern, gen.Field)
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	return err
''')))
add("E24 isvalidurl",sub('utils.go','isValidURL',('''	_, err := url.ParseRequestURI(toTest)
	if err != nil {
		return false
	}

	u, err := url.Parse(toTest)
	if err != nil || u.Scheme == "" || u.Host == "" {
		return false
	}

	return true
''','''	if _, err := url.ParseRequestURI(toTest); err != nil {
		return false
	}
	u, err := url.Parse(toTest)
	return err == nil && u.Scheme != "" && u.Host != ""
''')))
add("E25 call guards",sub('utils.go','callFuncByName',('''	if function.IsValid() {
		if function.Type().NumIn() != len(params) {
			return
		}
		for i, param := range params {
			if !param.Type().AssignableTo(function.Type().In(i)) {
				return
			}
		}
		rt := function.Call(params)
		if len(rt) == 0 {
			return
		}
		if !rt[0].IsNil() {
			err = rt[0].Interface().(error)
			return
		}
	}
	return
''','''	if !function.IsValid() || !accepts(function.Type(), params) {
		return nil
	}
	results := function.Call(params)
	if len(results) == 0 || results[0].IsNil() {
		return nil
	}
	return results[0].Interface().(error)
''')),('utils.go','// isValidUrl tests','''func accepts(function reflect.Type, params []reflect.Value) bool {
	if function.NumIn() != len(params) {
		return false
	}
	for i := range params {
		if !params[i].Type().AssignableTo(function.In(i)) {
			return false
		}
	}
	return true
}

// isValidUrl tests'''))
