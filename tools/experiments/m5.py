M=[
("m5a","C33",[('utils.go','			files = append(files, fp)\n','			if strings.HasPrefix(info.Name(), ".") {\n				return nil\n			}\n			files = append(files, fp)\n')]),
("m5b","C33",[('utils.go','			files = append(files, fp)\n','			if info.IsDir() && fp != path && strings.HasPrefix(info.Name(), "_") {\n				return filepath.SkipDir\n			}\n			files = append(files, fp)\n')]),
("m5c","C34",[('schema.go','			opt.LocalNameNSMap[ele.Name.Local] = ele.Value\n','			if _, ok := opt.LocalNameNSMap[ele.Name.Local]; !ok && len(opt.LocalNameNSMap) < 8 {\n				opt.LocalNameNSMap[ele.Name.Local] = ele.Value\n			}\n')]),
("m5d","C34",[('schema.go','			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {\n				continue\n			}\n','')]),
("m5e","C34",[('xmlInclude.go','opt.FileDir','opt.InputDir')]),
("m5f","C34",[('utils.go',' || u.Host == ""','')]),
("m5g","C35",[('xmlCharData.go','	ele = strings.TrimSpace(ele)\n','')]),
("m5h","C35",[('xmlCharData.go','Attributes[l-1].Doc','Attributes[0].Doc')]),
("m5i","C35",[('xmlCharData.go','			opt.Element.Peek().(*Element).Doc = ele\n			return\n','			opt.Element.Peek().(*Element).Doc = ele\n')]),
("m5j","C35",[('genTypeScript.go','genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])\n	}\n}\n\n// TypeScriptAttributeGroup','genFieldComment(fieldName, v.Name, "//"), fieldName, gen.StructAST[v.Name])\n	}\n}\n\n// TypeScriptAttributeGroup')]),
("m5k","C35",[('genGo.go','genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])\n	}\n}\n\n// GoAttributeGroup','genFieldComment(v.Name, v.Doc, "//"), fieldName, gen.StructAST[v.Name])\n	}\n}\n\n// GoAttributeGroup')]),
("m5l","C34",[('xmlSchema.go','	opt.prepareLocalNameNSMap(ele)\n','	if !opt.Extract || len(opt.LocalNameNSMap) == 0 {\n		opt.prepareLocalNameNSMap(ele)\n	}\n')]),
("m5m","C34",[('parser.go','	opt.FileDir = filepath.Dir(opt.FilePath)\n','	if opt.FileDir == "" {\n		opt.FileDir = filepath.Dir(opt.FilePath)\n	}\n')]),
("m5n","C34",[('parser.go','	xsdFile := filepath.Join(opt.FileDir, schemaLocation)','	xsdFile := filepath.Join(filepath.Dir(opt.FileDir), filepath.Base(opt.FileDir), filepath.Base(schemaLocation))')]),
("m5o","C34",[('schema.go','			opt.NSSchemaLocationMap[currentNS] = ele.Value\n','			opt.NSSchemaLocationMap[ele.Value] = currentNS\n')]),
("m5p","C34",[('schema.go','ele.Name.Space == "xmlns"','ele.Name.Space == "xmlns" && ele.Name.Local != "tns"')]),
("m5q","C35",[('xmlCharData.go','	if strings.TrimSpace(ele) == "" {','	if len(strings.TrimSpace(ele)) < 2 {')]),
("m5r","C35",[('xmlCharData.go','	if opt.Attribute.Len() > 0 {\n		opt.Attribute.Peek()','	if opt.Attribute.Len() > 1 {\n		opt.Attribute.Peek()')]),
("m5s","C35",[('xmlCharData.go','	case "simpleType":\n','	case "simpletype":\n')]),
("m5t","C35",[('utils.go','	if doc == "" {\n','	if len(doc) < 3 {\n')]),
]
M += [
("m5u","C35",[('parser.go','		case xml.CharData:\n			if err','		case xml.CharData:\n			if opt.InUnion {\n				continue\n			}\n			if err')]),
("m5v","C35",[('xmlComplexType.go','				c.Name, c.Doc = e.Name, e.Doc\n','				c.Name = e.Name\n')]),
("m5w","C35",[('genRust.go','''fieldName := genRustStructName(v.Name, true)
			gen.Field += fmt.Sprintf("\\n%s#[derive''','''fieldName := genRustStructName(v.Name, true)
			gen.Field += fmt.Sprintf("\\n%.0s#[derive''')]),
("m5x","C35",[('utils.go','docReplacer.Replace(doc))','docReplacer.Replace(strings.Split(doc, "\\n")[0]))')]),
("m5y","C35",[('xmlCharData.go','Elements[l-1].Doc = ele\n				return\n			}\n			opt.ComplexType','Elements[0].Doc = ele\n				return\n			}\n			opt.ComplexType')]),
("m5z","C35",[('parser.go','opt.OnCharData(string(element), opt.ProtoTree)','opt.OnCharData(strings.TrimSuffix(string(element), "."), opt.ProtoTree)')]),
]
