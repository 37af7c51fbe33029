exec(open('/tmp/mut/r2.py').read().split('M=[')[0]) if False else None
M=[
("B01 include helper","--",[('xmlInclude.go','''	for _, ele := range ele.Attr {
		if ele.Name.Local == "schemaLocation" {
			if isValidURL(ele.Value) {
				continue
			}
			include := filepath.Join(opt.FileDir, ele.Value)
			if _, ok := opt.IncludeMap[include]; ok {
				continue
			}
			opt.IncludeMap[include] = true
		}
	}
	return
''','''	for _, attr := range ele.Attr {
		if attr.Name.Local != "schemaLocation" || isValidURL(attr.Value) {
			continue
		}
		opt.IncludeMap[filepath.Join(filepath.Dir(opt.FilePath), attr.Value)] = true
	}
	return nil
''')]),
("B02 import one loop","--",[('schema.go','''	for _, ele := range element.Attr {
		if ele.Name.Local == "schemaLocation" {
			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {
				continue
			}
			if isValidURL(ele.Value) {
				continue
				// TODO: fetch remote schema
				// var err error
				// if opt.RemoteSchema[ele.Value], err = fetchSchema(ele.Value); err != nil {
				// 	continue
				// }
			}
			opt.NSSchemaLocationMap[currentNS] = ele.Value
		}
	}
''','''	location := attrValue(element, "schemaLocation")
	if location == "" || isValidURL(location) {
		return
	}
	if _, ok := opt.NSSchemaLocationMap[currentNS]; !ok {
		opt.NSSchemaLocationMap[currentNS] = location
	}
'''),('schema.go','''func (opt *Options) parseNS''','''func attrValue(element xml.StartElement, name string) (value string) {
	for _, attr := range element.Attr {
		if attr.Name.Local == name {
			value = attr.Value
		}
	}
	return
}

func (opt *Options) parseNS''')]),
("B03 import switch","--",[('schema.go','''	var currentNS string
	for _, ele := range element.Attr {
		if ele.Name.Local == "namespace" {
			currentNS = ele.Value
		}
	}
	for _, ele := range element.Attr {
		if ele.Name.Local == "schemaLocation" {
			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {
				continue
			}
			if isValidURL(ele.Value) {
				continue
				// TODO: fetch remote schema
				// var err error
				// if opt.RemoteSchema[ele.Value], err = fetchSchema(ele.Value); err != nil {
				// 	continue
				// }
			}
			opt.NSSchemaLocationMap[currentNS] = ele.Value
		}
	}
''','''	var currentNS, location string
	for _, ele := range element.Attr {
		switch ele.Name.Local {
		case "namespace":
			currentNS = ele.Value
		case "schemaLocation":
			location = ele.Value
		}
	}
	if _, ok := opt.NSSchemaLocationMap[currentNS]; ok || location == "" || isValidURL(location) {
		return
	}
	opt.NSSchemaLocationMap[currentNS] = location
''')]),
("B04 url","--",[('utils.go','''	_, err := url.ParseRequestURI(toTest)
	if err != nil {
		return false
	}

	u, err := url.Parse(toTest)
	if err != nil || u.Scheme == "" || u.Host == "" {
		return false
	}

	return true
''','''	u, err := url.ParseRequestURI(toTest)
	return err == nil && u.Scheme != "" && u.Host != ""
''')]),
("B05 ns switch","--",[('schema.go','''		if ele.Name.Space == "xmlns" {
			opt.LocalNameNSMap[ele.Name.Local] = ele.Value
		}
		if ele.Name.Space == "" && ele.Name.Local == "xmlns" {
			opt.LocalNameNSMap[""] = ele.Value
		}
''','''		prefix := ele.Name.Local
		if ele.Name.Space == "" && prefix == "xmlns" {
			prefix = ""
		} else if ele.Name.Space != "xmlns" {
			continue
		}
		opt.LocalNameNSMap[prefix] = ele.Value
''')]),
("B06 dir helper","--",[('parser.go','	opt.FileDir = filepath.Dir(opt.FilePath)\n	var fi','	opt.setDir()\n	var fi'),('parser.go','// relativePath returns','func (opt *Options) setDir() { opt.FileDir = filepath.Dir(opt.FilePath) }\n\n// relativePath returns')]),
("B07 location helper","--",[('parser.go','''	schemaLocation := opt.NSSchemaLocationMap[opt.parseNS(value)]
	if isValidURL(schemaLocation) {
		return
	}
	xsdFile := filepath.Join(opt.FileDir, schemaLocation)
''','''	xsdFile, remote := opt.location(value)
	if remote {
		return
	}
'''),('parser.go','// relativePath returns','''// location returns where the schema of a name is.
func (opt *Options) location(value string) (file string, remote bool) {
	location := opt.NSSchemaLocationMap[opt.LocalNameNSMap[getNSPrefix(value)]]
	return filepath.Join(opt.FileDir, location), isValidURL(location)
}

// relativePath returns''')]),
]
