M=[
("m7a","C11",[('utils.go','	output = strings.ReplaceAll(output, "-", "_")\n','')]),
("m7b","C11",[('utils.go','		if i == 0 {\n			rune = unicode.ToUpper(rune)','		if i == 0 && rune < 128 {\n			rune = unicode.ToUpper(rune)')]),
("m7c","C13",[('utils.go','		if i == 0 {\n			rune = unicode.ToUpper(rune)','		if i == 0 || i == 40 {\n			rune = unicode.ToUpper(rune)')]),
("m7d","C14",[('utils.go','	return strings.ToLower(output)\n','	return output\n')]),
("m7e","C04",[('utils.go','"${1}_${2}")\n	output = strings','"${1}_")\n	output = strings')]),
("m7f","C11",[('utils.go','		buf.WriteRune(rune)\n','		if rune != \'_\' {\n			buf.WriteRune(rune)\n		}\n')]),
]
