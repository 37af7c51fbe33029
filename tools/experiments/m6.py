M=[
("m6a","C32",[('stack.go','	stack.list.PushBack(value)\n','	if stack.list.Len() < 100 {\n		stack.list.PushBack(value)\n	}\n')]),
("m6b","C19",[('xmlElement.go','if attr.Value == "unbounded" || maxOccurs > 1 {','if attr.Value == "unbounded" || maxOccurs > 1 && maxOccurs != 100 {')]),
("m6c","C35",[('utils.go','	if doc == "" {\n','	if len(doc) > 5000 {\n		doc = doc[:5000]\n	}\n	if doc == "" {\n')]),
("m6d","C35",[('xmlCharData.go','	if strings.TrimSpace(ele) == "" {','	if strings.TrimSpace(ele) == "" || len(ele) > 10000 {')]),
("m6e","C15",[('utils.go','	sort.Sort(pl)\n','	if len(pl) < 64 {\n		sort.Sort(pl)\n	}\n')]),
("m6f","C21",[('utils.go','	if len(split) == 2 {\n		name = split[1]','	if len(split) == 2 && len(split[0]) < 20 {\n		name = split[1]')]),
("m6g","C21",[('utils.go','	for _, ele := range XSDSchema {\n','	for i, ele := range XSDSchema {\n		if i > 1000 {\n			break\n		}\n')]),
("m6h","C04",[('genGo.go','		for _, element := range v.Elements {\n','		for i, element := range v.Elements {\n			if i > 254 {\n				break\n			}\n',1)]),
("m6i","C12",[('genGo.go','count != 1 {','count != 1 && count < 10 {')]),
("m6j","C34",[('utils.go','u.Host == "" {','u.Host == "" || len(toTest) > 2048 {')]),
("m6k","C31",[('xmlEnumeration.go','			if opt.SimpleType.Peek() != nil {\n','			if opt.SimpleType.Peek() != nil && len(opt.SimpleType.Peek().(*SimpleType).Restriction.Enum) < 500 {\n')]),
("m6l","C27",[('utils.go','			files = append(files, fp)\n','			if info.Size() == 0 {\n				return nil\n			}\n			files = append(files, fp)\n')]),
("m6m","C20",[('xmlUnion.go','			for _, memberType := range memberTypes {\n','			for i, memberType := range memberTypes {\n				if i == 16 {\n					break\n				}\n')]),
("m6n","C16",[('parser.go','	if fi.IsDir() {\n		return\n	}\n	var xmlFile','	if fi.IsDir() || fi.Size() > 1<<30 {\n		return\n	}\n	var xmlFile')]),
("m6o","C34",[('xmlInclude.go','			opt.IncludeMap[include] = true\n','			if len(opt.IncludeMap) < 32 {\n				opt.IncludeMap[include] = true\n			}\n')]),
("m6p","C34",[('schema.go','			if isValidURL(ele.Value) {\n','			if isValidURL(ele.Value) || currentNS == "" {\n')]),
("m6q","C33",[('utils.go','	if path == "" {\n','	if path == "" || len(path) > 240 {\n')]),
("m6r","C16",[('genJava.go','	f, err := os.Create(','	if gen.Field == "" {\n		return nil\n	}\n	f, err := os.Create(')]),
("m6s","C27",[('cmd/xgen/xgen.go','	for _, file := range files {\n','	for i, file := range files {\n		if i > 1000 {\n			break\n		}\n')]),
("m6t","C11",[('utils.go','	for i, rune := range val {\n','	for i, rune := range val {\n		if i > 120 {\n			break\n		}\n')]),
("m6u","C20",[('xmlElement.go','		if element.Name == ele.Name {\n','		if element.Name == ele.Name || i > 200 {\n')]),
("m6v","C20",[('xmlAttribute.go','	opt.Attribute.Push(&attribute)\n','	if attribute.Name == "id" && attribute.Type == "" {\n		return\n	}\n	opt.Attribute.Push(&attribute)\n')]),
("m6w","C06",[('xmlAttribute.go','			if attr.Value == "required" {','			if attr.Value == "required" && attribute.Name != "id" {')]),
("m6x","C20",[('xmlAttribute.go','	if opt.ComplexType.Len() > 0 {\n','	if opt.ComplexType.Len() > 0 && opt.ComplexType.Len() < 5 {\n')]),
("m6y","C03",[('genRust.go','		if ele == nil {\n','		if ele == nil || len(gen.StructAST) > 4096 {\n')]),
("m6z","C07",[('genGo.go','xml:\\"%s,attr%s\\"','xml:\\"%.40s,attr%s\\"',1)]),
]
