M=[
("F01 prepare stat ok","--",[('utils.go','	_, err := os.Stat(path)\n	if os.IsNotExist(err) {\n		if err := os.MkdirAll(path, 0755); err != nil {\n			return err\n		}\n	}\n	return nil\n','	if _, err := os.Stat(path); err == nil || !os.IsNotExist(err) {\n		return nil\n	}\n	return os.MkdirAll(path, 0755)\n')]),
("F02 prepare always","--",[('utils.go','	_, err := os.Stat(path)\n	if os.IsNotExist(err) {\n		if err := os.MkdirAll(path, 0755); err != nil {\n			return err\n		}\n	}\n	return nil\n','	return os.MkdirAll(path, 0755)\n')]),
("F03 exists helper","--",[('utils.go','	_, err := os.Stat(path)\n	if os.IsNotExist(err) {\n','	if missing(path) {\n'),('utils.go','func PrepareOutputDir(','func missing(path string) bool {\n	_, err := os.Stat(path)\n	return os.IsNotExist(err)\n}\n\n// PrepareOutputDir prepares.\nfunc PrepareOutputDir(')]),
("F04 run main","--",[('cmd/xgen/xgen.go','func main() {\n	cfg := parseFlags()\n','func main() {\n	os.Exit(run(parseFlags()))\n}\n\nfunc run(cfg *Config) int {\n'),('cmd/xgen/xgen.go','		fmt.Println(err)\n		os.Exit(1)\n	}\n	for','		fmt.Println(err)\n		return 1\n	}\n	for'),('cmd/xgen/xgen.go','			os.Exit(1)\n		}\n	}\n	fmt.Println("done")\n','			return 1\n		}\n	}\n	fmt.Println("done")\n	return 0\n')]),
("F05 deferred status","--",[('cmd/xgen/xgen.go','func main() {\n	cfg := parseFlags()\n','func main() {\n	status := 0\n	defer func() {\n		if status != 0 {\n			os.Exit(status)\n		}\n	}()\n	cfg := parseFlags()\n'),('cmd/xgen/xgen.go','err.Error())\n			os.Exit(1)\n		}\n	}\n','err.Error())\n			status = 1\n			return\n		}\n	}\n')]),
("F06 ext by Ext","--",[('genGo.go','	if strings.HasSuffix(gen.File, extension) {\n		return gen.File\n	}\n	return gen.File + extension','	file := gen.File\n	if !strings.HasSuffix(file, extension) {\n		file += extension\n	}\n	return file')]),
("F07 stack push guard","--",[('stack.go','	return stack.list.Len() == 0','	return stack.list.Back() == nil')]),
("F08 stack pop via peek","--",[('stack.go','	e := stack.list.Back()\n	if e != nil {\n		stack.list.Remove(e)\n		return e.Value\n	}\n	return nil\n','	if e := stack.list.Back(); e != nil {\n		return stack.list.Remove(e)\n	}\n	return nil\n')]),
("F09 merged element helper","--",[('xmlElement.go','			element.Plural = element.Plural || e.Plural\n			opt.ComplexType.Peek().(*ComplexType).Elements[i] = *element\n','			opt.ComplexType.Peek().(*ComplexType).Elements[i].Plural = element.Plural || e.Plural\n')]),
("F10 groups index","--",[('xmlGroup.go','	for _, g := range groups {\n		if g.Name == group.Name {\n			return true\n		}\n	}\n	return false','	for i := 0; i < len(groups); i++ {\n		if name := groups[i].Name; name == group.Name {\n			return true\n		}\n	}\n	return false')]),
("F11 include dir guard","--",[('parser.go','	if fi.IsDir() {\n		return\n	}\n	var xmlFile','	if fi.Mode().IsDir() {\n		return nil\n	}\n	var xmlFile')]),
("F12 url helper","--",[('schema.go','			if isValidURL(ele.Value) {\n				continue\n','			if remote := isValidURL(ele.Value); remote {\n				continue\n')]),
("F13 wrapped error","--",[('parser.go','				if err = parser.Parse(); err != nil {\n					return\n				}\n				if vt','				if err = parser.Parse(); err != nil {\n					err = fmt.Errorf("included schema %s: %w", include, err)\n					return\n				}\n				if vt')]),
("F14 defer closure","--",[('genGo.go','	defer f.Close()\n','	defer func() {\n		_ = f.Close()\n	}()\n')]),
("F15 chardata switch","--",[('xmlCharData.go','	if strings.TrimSpace(ele) == "" {\n		return\n	}\n	ele = strings.TrimSpace(ele)\n','	if ele = strings.TrimSpace(ele); len(ele) == 0 {\n		return nil\n	}\n')]),
("F16 ns switch","--",[('schema.go','		if ele.Name.Space == "xmlns" {\n			opt.LocalNameNSMap[ele.Name.Local] = ele.Value\n		}\n		if ele.Name.Space == "" && ele.Name.Local == "xmlns" {\n			opt.LocalNameNSMap[""] = ele.Value\n		}\n','		switch {\n		case ele.Name.Space == "xmlns":\n			opt.LocalNameNSMap[ele.Name.Local] = ele.Value\n		case ele.Name.Space == "" && ele.Name.Local == "xmlns":\n			opt.LocalNameNSMap[""] = ele.Value\n		}\n')]),
("F17 enum local","--",[('xmlEnumeration.go','			if opt.SimpleType.Peek() != nil {\n				opt.SimpleType.Peek().(*SimpleType).Restriction.Enum = append(opt.SimpleType.Peek().(*SimpleType).Restriction.Enum, attr.Value)\n			}\n','			if top, ok := opt.SimpleType.Peek().(*SimpleType); ok {\n				top.Restriction.Enum = append(top.Restriction.Enum, attr.Value)\n			}\n')]),
("F18 union helper","--",[('xmlUnion.go','			memberTypes := strings.Fields(attr.Value)\n			for _, memberType := range memberTypes {\n				opt','			for _, memberType := range strings.Fields(attr.Value) {\n				opt')]),
("F19 pkg const","--",[('genGo.go','	packageName := gen.Package\n	if packageName == "" {\n		packageName = "schema"\n	}\n','	packageName := "schema"\n	if len(gen.Package) > 0 {\n		packageName = gen.Package\n	}\n')]),
("F20 trimNS cut","--",[('utils.go','	split := strings.Split(str, ":")\n	if len(split) == 2 {\n		name = split[1]\n		return\n	}\n	name = str\n	return','	if strings.Count(str, ":") != 1 {\n		return str\n	}\n	return str[strings.Index(str, ":")+1:]')]),
]
