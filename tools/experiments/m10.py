M=[
("m10a","C07",[('genGo.go','fieldName, fieldType, attribute.Name, optional)','fieldName, fieldType, attribute.Name, optional)'),('genGo.go','genGoFieldName(attribute.Name, false), fieldType, attribute.Name, optional)','genGoFieldName(attribute.Name, false), fieldType, trimNSPrefix(attribute.Name), optional)')]),
("m10b","C16",[('parser.go','				if err = parser.Parse(); err != nil {\n					return\n				}\n				if vt','				if err = parser.Parse(); err != nil && !os.IsNotExist(err) {\n					return\n				}\n				if vt')]),
("m10c","C16",[('parser.go','func (opt *Options) Parse() (err error) {\n','func (opt *Options) Parse() (err error) {\n	defer func() {\n		if r := recover(); r != nil {\n			fmt.Println("xgen:", r)\n		}\n	}()\n')]),
("m10d","C20",[('xmlComplexType.go','	opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())\n','	c := opt.ComplexType.Pop()\n	if t, ok := c.(*ComplexType); ok {\n		for _, known := range opt.ProtoTree {\n			if k, ok := known.(*ComplexType); ok && k.Name == t.Name && len(k.Elements) >= len(t.Elements) {\n				opt.CurrentEle = ""\n				return\n			}\n		}\n	}\n	opt.ProtoTree = append(opt.ProtoTree, c)\n')]),
("m10e","C19",[('xmlChoice.go','maxOccurs > 1','maxOccurs >= 1')]),
("m10f","C25",[('parser.go','			Package:             opt.Package,\n			IncludeMap:          make','			IncludeMap:          make')]),
("m10g","C27",[('cmd/xgen/xgen.go','Package:             cfg.Pkg','Package:             strings.ToLower(cfg.Pkg)')]),
("m10h","C32",[('stack.go','		stack.list.Remove(e)\n		return e.Value\n','		v := stack.list.Remove(e)\n		for stack.list.Len() > 0 && stack.list.Back().Value == v {\n			stack.list.Remove(stack.list.Back())\n		}\n		return v\n')]),
("m10i","C33",[('genGo.go','	if strings.HasSuffix(gen.File, extension) {\n		return gen.File\n	}\n','	if strings.HasSuffix(gen.File, extension) {\n		return gen.File\n	}\n	if strings.HasSuffix(gen.File, ".wsdl") {\n		return strings.TrimSuffix(gen.File, ".wsdl") + extension\n	}\n')]),
("m10j","C31",[('xmlEnumeration.go','			if opt.SimpleType.Peek() != nil {\n','			if opt.SimpleType.Peek() != nil {\n				for _, known := range opt.SimpleType.Peek().(*SimpleType).Restriction.Enum {\n					if known == attr.Value {\n						return nil\n					}\n				}\n')]),
("m10k","C21",[('utils.go','			if !v.List && !v.Union && v.Name == name {','			if !v.List && !v.Union && v.Base != "" && v.Name == name {')]),
("m10l","C21",[('utils.go','			if !v.List && !v.Union && v.Name == name {','			if !v.List && !v.Union && len(v.Restriction.Enum) == 0 && v.Name == name {')]),
("m10m","C30",[('parser.go','	decoder.CharsetReader = charset.NewReaderLabel\n','	decoder.CharsetReader = func(label string, input io.Reader) (io.Reader, error) {\n		if strings.HasPrefix(strings.ToLower(label), "us-") {\n			return input, nil\n		}\n		return charset.NewReaderLabel(label, input)\n	}\n')]),
("m10n","C14",[('genRust.go','	if _, ok := rustKeywords[fieldName]; ok {\n','	if _, ok := rustKeywords[fieldName]; ok && fieldName != "static" {\n')]),
("m10o","C35",[('xmlComplexType.go','			c.Name, c.Doc = e.Name, e.Doc\n		}\n		opt.ComplexType.Push(&c)\n	}\n\n','			c.Name = e.Name\n		}\n		opt.ComplexType.Push(&c)\n	}\n\n')]),
("m10p","C28",[('parser.go','	defer xmlFile.Close()\n	fileKey','	defer func() {\n		if err == nil {\n			xmlFile.Close()\n		}\n	}()\n	fileKey')]),
("m10q","C23",[('xmlEnumeration.go','func (opt *Options) OnEnumeration','var enumCount = map[string]int{}\n\nfunc (opt *Options) OnEnumeration'),('xmlEnumeration.go','			if opt.SimpleType.Peek() != nil {\n','			enumCount[opt.FilePath]++\n			if opt.SimpleType.Peek() != nil {\n')]),
("m10r","C19",[('xmlElement.go','			element.Plural = element.Plural || e.Plural\n','			element.Plural = e.Plural\n')]),
("m10s","C20",[('xmlGroup.go','		if g.Name == group.Name {\n','		if trimNSPrefix(g.Name) == trimNSPrefix(group.Name) {\n')]),
("m10t","C04",[('genJava.go','for _, group := range v.Groups {','for _, group := range v.Groups {\n			if group.Ref == v.Name {\n				continue\n			}')]),
("m10u","C26",[('utils.go','		if err := os.MkdirAll(path, 0755); err != nil {','		os.RemoveAll(path + ".old")\n		if err := os.MkdirAll(path, 0755); err != nil {')]),
("m10v","C10",[('utils.go','"\\u2029", newLine, ','')]),
("m10w","C20",[('xmlAttribute.go','	if opt.AttributeGroup.Len() > 0 {\n','	if opt.AttributeGroup.Len() > 0 && opt.ComplexType.Len() == 0 && opt.AttributeGroup.Peek().(*AttributeGroup).Ref == "" {\n')]),
("m10x","C16",[('utils.go','	_, err := os.Stat(path)\n	if os.IsNotExist(err) {\n		if err := os.MkdirAll','	if _, err := os.Stat(path); err != nil && !os.IsPermission(err) {\n		if err := os.MkdirAll')]),
("m10y","C24",[('parser.go','	depXSDSchema, ok := opt.ParseFileMap[xsdFile]\n','	depXSDSchema, ok := opt.ParseFileMap[strings.ToLower(xsdFile)]\n')]),
("m10z","C34",[('parser.go','	if valueType != trimNSPrefix(value) && valueType != "" {\n		return\n	}\n	if opt.Extract','	if valueType != trimNSPrefix(value) && valueType != "" {\n		return\n	}\n	if strings.Count(value, ":") > 1 {\n		return\n	}\n	if opt.Extract')]),
("m10A","C02",[('utils.go','	if function.IsValid() {\n','	if function.IsValid() && function.Type().NumOut() > 0 {\n')]),
("m10B","C17",[('xmlEnumeration.go','	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {','	if opt.SimpleType.Len() > 0 && (opt.Element.Len() > 0 || opt.InElement == "element") {')]),
("m10C","C20",[('xmlUnion.go','MemberTypes[trimNSPrefix(memberType)], err','MemberTypes[strings.TrimPrefix(memberType, "xs:")], err')]),
("m10D","C04",[('xmlUnion.go','	opt.SimpleType.Peek().(*SimpleType).MemberTypes = make(map[string]string)\n	for','	opt.SimpleType.Peek().(*SimpleType).MemberTypes = make(map[string]string)\n	defer delete(opt.SimpleType.Peek().(*SimpleType).MemberTypes, "")\n	for')]),
("m10E","C18",[('xmlElement.go','		if attr.Name.Local == "name" {\n			e.Name = attr.Value','		if attr.Name.Local == "name" && e.Type == "" {\n			e.Name = attr.Value')]),
("m10F","C34",[('schema.go','		if ele.Name.Local == "namespace" {\n			currentNS = ele.Value\n','		if ele.Name.Local == "namespace" {\n			currentNS = strings.TrimSuffix(ele.Value, "/")\n'),('schema.go','import "encoding/xml"','import (\n	"encoding/xml"\n	"strings"\n)')]),
("m10G","C07",[('genRust.go','		for _, element := range v.Elements {\n','		for _, element := range v.Elements {\n			element.Name = trimNSPrefix(element.Name)\n')]),
("m10H","C15",[('utils.go','	sort.Sort(pl)\n','	if len(pl) > 2 {\n		sort.Sort(pl)\n	}\n')]),
("m10I","C08",[('genTypeScript.go','		if len(v.Base) > 0 && !isBuiltInTypeScriptType(v.Base) {','		if len(v.Base) > 0 && v.Base != v.Name && !isBuiltInTypeScriptType(v.Base) {')]),
("m10J","C08",[('genRust.go','		if len(v.Base) > 0 {\n','		if len(v.Base) > 0 && (len(v.Elements) > 0 || len(v.Attributes) > 0 || isRustBuiltInType(v.Base)) {\n')]),
("m10K","C09",[('genGo.go','	case "time.Time":\n		gen.ImportTime = true\n	case','	case "time.Time":\n		gen.ImportTime = len(gen.ProtoTree) > 0 && gen.Field == "" || gen.ImportTime\n	case')]),
("m10L","C27",[('cmd/xgen/xgen.go','			fmt.Printf("process error on %s: %s\\r\\n", file, err.Error())\n			os.Exit(1)','			fmt.Printf("process error on %s: %s\\r\\n", file, err.Error())\n			defer os.Exit(1)\n			break')]),
("m10M","C27",[('cmd/xgen/xgen.go','	if ok := SupportLang[Cfg.Lang]; !ok {','	if _, ok := SupportLang[Cfg.Lang]; !ok && len(Cfg.Lang) > 0 {')]),
("m10N","C35",[('xmlCharData.go','	if opt.InElement == "documentation"','	if opt.InElement == "documentation" && opt.InGroup < 2')]),
("m10O","C05",[('genTypeScript.go','gen.ProtoTree), element.Plural)\n			content','gen.ProtoTree), element.Plural && !element.Optional)\n			content')]),
("m10P","C18",[('xmlGroup.go','		if attr.Name.Local == "name" {\n			group.Name','		if attr.Name.Local == "name" && !group.Plural {\n			group.Name')]),
("m10Q","C03",[('utils.go','	if function.IsValid() {\n','	if function.IsValid() && !strings.HasSuffix(name, "Attribute") {\n')]),
]
