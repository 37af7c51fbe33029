M=[
("C17a","C17",[("utils.go",'		for i, param := range params {\n			if !param.Type().AssignableTo(function.Type().In(i)) {\n				return\n			}\n		}\n','')]),
("C17b","C17",[("xmlSimpleType.go",'	if opt.SimpleType.Len() > 0 && opt.Attribute.Len() > 0 {','	if opt.Attribute.Len() > 0 {')]),
("C17c","C17",[("xmlGroup.go",'		opt.ProtoTree = append(opt.ProtoTree, opt.Group.Pop())\n		opt.CurrentEle = ""\n		opt.InGroup--\n','		opt.ProtoTree = append(opt.ProtoTree, opt.Group.Pop())\n		opt.CurrentEle = ""\n')]),
("C17d","C17",[("genGo.go",'		if ele == nil {\n			continue\n		}\n','')]),
("C17e","C17",[("xmlElement.go",'		if opt.Group.Len() > 0 {','		if opt.Group != nil {')]),
("C17f","C17",[("parser.go",'	opt.Choice = NewStack()\n','')]),
("C17g","C17",[("parser.go",'			IncludeMap:          make(map[string]bool),\n			LocalNameNSMap:      make(map[string]string),\n			NSSchemaLocationMap: make(map[string]string),\n			ParseFileList:       opt.ParseFileList,','			IncludeMap:          make(map[string]bool),\n			LocalNameNSMap:      make(map[string]string),\n			ParseFileList:       opt.ParseFileList,')]),
("C17h","C17",[("utils.go",'	split := strings.Split(str, ":")\n	if len(split) == 2 {\n		name = split[1]','	split := strings.Split(str, ":")\n	if strings.Contains(str, ":") {\n		name = split[1]')]),
("C17i","C17",[("xmlCharData.go",'			if l > 0 {','			if l >= 0 {')]),
("C17j","C17",[("xmlEnumeration.go",'if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {','if opt.Attribute.Len() > 0 && opt.CurrentEle != "" {')]),
("C17k","C17",[("xmlUnion.go",'	if opt.SimpleType.Len() > 0 {','	if opt.SimpleType.Len() >= 0 {')]),
("C17l","C17",[("xmlRestriction.go",'if !opt.ComplexType.Empty() && len(opt.ComplexType.Peek().(*ComplexType).Elements) > 0 {','if !opt.ComplexType.Empty() {')]),
("C17m","C17",[("genGo.go",'reflect.TypeOf(ele).String()[6:]','reflect.TypeOf(ele).String()[13:]')]),
("C17n","C17",[("xmlPattern.go",'	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {','	if opt.SimpleType.Len()+opt.Element.Len() > 1 {')]),
("C17o","C17",[("xmlComplexType.go",'		if e, ok := opt.Element.Pop().(*Element); ok {\n			c.Name = e.Name\n		}\n		opt.ComplexType.Push(&c)\n	}\n\n','		c.Name = opt.Element.Pop().(*Element).Name\n		opt.ComplexType.Push(&c)\n	}\n\n')]),
("C17p","C17",[("xmlAttributeGroup.go",'	if opt.AttributeGroup.Len() > 0 {\n','	if opt.InAttributeGroup {\n'),("xmlAttributeGroup.go",'		opt.InAttributeGroup = false\n','')]),
]
