#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay uniform)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
BASE = "The only schema the suite parses is one 70-line fixture (base64.xsd), compared byte for byte per language; "
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

GEN = ["genGo.go", "genC.go", "genJava.go", "genRust.go", "genTypeScript.go"]

p("C01", "Built-in XSD types keep their kind in every language",
  "A reference to a built-in XSD data type, under any prefix, is generated in each of the five languages as a type of that language which its generator treats as built in and which has the same kind: text for textual and date types, boolean for boolean, a sequence of text for the list types, binary or text for binary types, floating point for decimal/float/double. Integer types map to integer types able to hold every value of a fixed-width XSD type, and resolving an already resolved type again changes nothing.",
  ["inputs"], "every built-in XSD type name known to the generator, in every supported language, under every prefix",
  BASE + "it uses 7 of the 46 built-in types; the other rows of the table are never looked at in any language.",
  ["utils.go", "parser.go"] + GEN,
  [("BuildInTypes table and its per-language column index", "utils.go BuildInTypes, getBuildInTypeByLang"),
   ("built-in lookup comes first in type resolution", "parser.go GetValueType"),
   ("per-language set of built-in types", "goBuildinType, cBuildInType, javaBuildInType, rustBuildinType, typeScriptBuildInType")])

p("C02", "Every language the tool accepts is supported end to end",
  "The languages accepted by the command line are exactly Go, C, Java, Rust and TypeScript; for each of them a run produces the code of that language, in a file carrying that language's extension (.go, .h, .java, .rs, .ts). No language is accepted without a generator, and no generator emits another language's declarations.",
  ["configurations"], "every accepted value of the language option",
  "The library tests call the five generators by name with one fixture; the command line's own table of languages has no test at all, and a language missing from one of the tables fails silently.",
  ["cmd/xgen/xgen.go", "parser.go", "utils.go"] + GEN,
  [("SupportLang", "cmd/xgen/xgen.go"), ("dispatch by Gen<Lang>", "parser.go Parse"), ("dispatch by <Lang><node kind>", "Gen* in gen*.go"), ("language column index", "utils.go getBuildInTypeByLang")])

p("C03", "Every declaration in the parse result is emitted, in every language",
  "For each declaration (simple type, complex type, element, attribute, model group, attribute group) in the parse result, each language's generator emits its code exactly once, in parse order, and adds it to the text emitted before. It is skipped only when a declaration with the same schema name was already emitted; the text written to the file contains everything emitted.",
  ["inputs", "configurations"], "every parse result, in every language",
  BASE + "it contains no top-level attribute, group, attribute group, list or union, so most emitters are never run, and dispatch is by a method name built at run time that is silently ignored when it does not exist.",
  GEN + ["utils.go"],
  [("per-node dispatch loop", "Gen* in gen*.go"), ("reflection call", "utils.go callFuncByName"), ("already-emitted map", "CodeGenerator.StructAST")],
  state=[("CodeGenerator.Field", "text emitted so far", "genGo.go"), ("CodeGenerator.StructAST", "names already emitted", "genGo.go")])

p("C04", "Every member of a declared type is emitted with its own name and type",
  "The generated type of a complex type has one member for every child element, attribute, model-group reference and attribute-group reference, in every language; that of a model group one for every element and nested group; that of an attribute group one for every attribute; that of a union one for every member type. Each member's identifier comes from that child's own name and its type from that child's own type; none is left out, repeated or cut short.",
  ["inputs"], "every declaration with any number and mix of children, in every language",
  BASE + "it has no groups, attribute groups or unions, and at most four children per type.",
  GEN, [("loops over the children of each node kind", "<Lang>ComplexType, <Lang>Group, <Lang>AttributeGroup, <Lang>SimpleType")])

p("C05", "Repeatable children become sequences, single ones do not",
  "A child element or group reference marked as repeatable is generated with the language's sequence form around its type ([]T, T name[], List<T>, Vec<T>, Array<T>), and one that is not repeatable is generated without it; the same holds for a repeatable top-level element. A list simple type is generated as a sequence of its item type.",
  ["inputs"], "every child of every declaration, repeatable or not, in every language",
  BASE + "only two of its children are repeatable, and groups, top-level elements and list types do not occur.",
  GEN, [("use of Plural", "<Lang>ComplexType, <Lang>Group, <Lang>Element"), ("use of List", "<Lang>SimpleType")])

p("C06", "Optional and required attributes are told apart in the generated code",
  "In every language the member generated for an optional attribute carries the language's optional form (omitempty, an 'optional' comment, no required = true, Option<T>, '| null') and the member for a required attribute does not, in complex types and attribute groups alike; apart from that form the two are generated with the same name and the same type.",
  ["inputs"], "every attribute of every complex type and attribute group, in every language",
  BASE + "it has one required attribute, and no attribute group.",
  GEN, [("use of Attribute.Optional", "<Lang>ComplexType, <Lang>AttributeGroup")])

p("C07", "XML names are kept verbatim in the generated bindings",
  "Wherever generated Go, Java or Rust code binds a member of a generated type to an XML attribute or element (struct tag, annotation, serde rename), the binding contains exactly the schema name of that same attribute or element, unaltered; in Go the attribute flag is present for attributes and absent for elements. In Go, a generated struct type whose identifier differs from its schema name records the schema name as its XML name.",
  ["inputs"], "every attribute and element name, in Go, Java and Rust",
  BASE + "its names contain no dots, dashes or underscores, so altering a name before binding it would mostly go unseen.",
  ["genGo.go", "genJava.go", "genRust.go"], [("xml struct tags", "genGo.go"), ("@XmlElement/@XmlAttribute annotations", "genJava.go"), ("serde rename", "genRust.go")])

p("C08", "A type's base is represented in the generated type",
  "For a complex type that extends a base, the generated type carries that base: when it is a built-in type, a value member of that type bound to the element's text; otherwise embedding, inheritance or a flattened member of the generated base type. Without a base, none of these is generated.",
  ["inputs", "configurations"], "every complex type with and without a base, in every language",
  BASE + "it has four extensions and no base whose name needs rewriting.",
  GEN, [("use of ComplexType.Base", "<Lang>ComplexType")])

p("C09", "Generated Go files import exactly the packages their types use",
  "A generated Go file imports time if and only if some generated type uses time.Time, and encoding/xml if and only if some generated type uses xml.Name, whatever declarations of whatever kinds it contains.",
  ["inputs"], "every parse result: which kinds of declaration use date/time, QName or renamed types, in any combination",
  BASE + "no type in it uses time.Time, and every combination of node kind and type would have to be tried.",
  ["genGo.go"], [("ImportTime / ImportEncodingXML flags and import clause", "genGo.go GenGo")],
  state=[("CodeGenerator.ImportTime", "file needs time", "genGo.go"), ("CodeGenerator.ImportEncodingXML", "file needs encoding/xml", "genGo.go")])

p("C10", "Schema documentation never becomes code",
  "Text taken from schema documentation appears in generated code only inside line comments: every line of it, whichever line terminators it contains (LF, CR, U+2028, U+2029), starts with the language's comment marker. The text that follows a comment starts on a new line.",
  ["inputs"], "every documentation text, in every language",
  BASE + "it contains no documentation at all.",
  ["utils.go"] + GEN, [("comment rendering", "utils.go genFieldComment")])

p("C11", "Generated declarations are syntactically well formed",
  "Whatever the kinds, number, multiplicity, optionality and built-in-ness of a declaration's parts, the text emitted for it is a syntactically well-formed declaration of the target language: delimiters match, every member is terminated, and every member has an identifier and a type. Identifiers have all letters and digits of the schema name, in order (case and separators may change). This holds for schemas whose names start with a letter and consist of letters, digits, '.', '-' and '_'.",
  ["inputs", "configurations"], "every shape of declaration: all combinations of empty and non-empty child lists, repeatable, optional, with base, list, union, enumeration, built-in types, in every language",
  BASE + "it exercises one or two shapes per declaration kind, and the output of four of the five languages is never parsed.",
  GEN, [("declaration templates", "gen*.go")])

p("C12", "Colliding declaration names get distinct identifiers",
  "Two top-level declarations with different schema names that would be written with the same identifier (for example foo and Foo) are generated under different identifiers in the same file, in every language. Numbering restarts for every generated file.",
  ["inputs", "histories"], "every pair of declarations in a file, every sequence of files generated by one process",
  BASE + "no two of its names collide, and each test generates one file.",
  GEN, [("identifier counter", "gen<Lang>FieldName, genRustStructName, fieldNameCount")],
  state=[("fieldNameCount", "how often an identifier was declared in this file", "utils.go")])

p("C13", "References to a generated type are spelled like its declaration",
  "In every language, the identifier under which a schema type is declared and the identifier by which members, bases and aliases refer to it are derived from the schema name by the same rewriting of separators, dashes, underscores and case, so that a reference names the generated declaration. A reference has the language's reference form exactly once.",
  ["inputs"], "every schema type name, every place that refers to it, in every language",
  BASE + "none of its type names contains a separator that has to be rewritten.",
  GEN, [("identifier of a declaration", "gen<Lang>FieldName / genRustStructName"), ("identifier of a reference", "gen<Lang>FieldType")])

p("C14", "Generated Rust field names are never reserved words",
  "No field of a generated Rust struct is named with a strict or reserved keyword of Rust (2021 edition), whatever the schema calls it; every field name of a generated Rust struct goes through the same rewriting to snake case.",
  ["inputs"], "every attribute, element, group and type name",
  BASE + "none of its names is a Rust keyword.",
  ["genRust.go", "utils.go"], [("rustKeywords and genRustFieldName", "genRust.go"), ("ToSnakeCase", "utils.go")])

p("C15", "The same schemas always produce byte-identical code",
  "Parsing and generating the same schema files with the same options gives byte-identical output on every run: nothing that is written depends on map iteration order, time, randomness, process state, addresses or the environment.",
  ["inputs", "schedules", "histories"], "every input with any number of unions, includes and imports, on every run",
  "Map iteration order is randomised per run, and the fixture has no union and no include, the two places where maps are iterated.",
  ["utils.go", "parser.go"] + GEN, [("sorted iteration", "utils.go toSortedPairs, kvPairList.Less"), ("include resolution", "parser.go GetValueType")])

p("C16", "Every failure is reported, never turned into success",
  "When reading a schema, decoding its XML, resolving or parsing a schema it depends on, converting an occurrence count, walking the input directory, creating a directory or writing or closing an output file fails, the library call returns a non-nil error. In particular malformed or truncated XML is an error, not a shorter schema, and a call succeeds only when it has read the schema file to its end (or the path is a directory).",
  ["inputs", "fault_sequences"], "every point at which a fallible operation fails",
  "No test injects a fault or parses a malformed schema; an unchecked error leaves a truncated output file and exit status 0.",
  ["parser.go", "utils.go", "xmlElement.go", "xmlChoice.go"] + GEN, [("error results", "all On*/End* handlers, Parse, GetValueType, Gen*")])

p("C17", "No schema document can crash the parser or the generators",
  "For every well-formed XML document, whether or not it is a valid schema, parsing and generating either succeed or return an error: no nil value is dereferenced or asserted, no index is out of range, no call through reflection has the wrong arguments, no nil map is written.",
  ["inputs"], "every well-formed document: any element names, nesting, order and attributes",
  BASE + "the handlers keep several stacks, and which of them is empty depends on the whole nesting history of the document.",
  ["stack.go", "parser.go", "utils.go", "xmlComplexType.go", "xmlGroup.go", "xmlElement.go", "xmlCharData.go", "xmlRestriction.go"],
  [("emptiness guards on the stacks", "xml*.go"), ("reflection dispatch", "utils.go callFuncByName"), ("nil-node guard", "Gen* in gen*.go")],
  state=[("SimpleType, ComplexType, Element, Attribute, Group, AttributeGroup, Choice", "stacks of open declarations", "parser.go Options"), ("InGroup, CurrentEle", "nesting state", "parser.go Options")])

p("C18", "The order of XML attributes never matters",
  "Reordering the attributes (of different names) of any schema element, including the schema and import elements, does not change the parse result, the generated code or whether an error is reported. All attributes of an element that the parser understands are taken into account, wherever among the others they stand. (ref is not combined with name or type, as in XML Schema.)",
  ["inputs"], "every permutation of the attributes of every element",
  BASE + "each element in it is written with one attribute order.",
  ["schema.go", "xmlElement.go", "xmlAttribute.go", "xmlGroup.go", "xmlAttributeGroup.go", "xmlChoice.go", "xmlComplexType.go", "xmlSimpleType.go", "xmlUnion.go", "xmlList.go", "xmlRestriction.go", "xmlExtension.go", "xmlInclude.go", "xmlEnumeration.go"],
  [("loops over the attributes", "On* handlers, prepareNSSchemaLocationMap, prepareLocalNameNSMap")])

p("C19", "Occurrence and use attributes are read as XSD defines them",
  "An element, choice or group reference is repeatable exactly when its own maxOccurs is 'unbounded' or a number greater than one, or, for an element, when it stands inside a repeatable choice; a number that cannot be read is an error. An attribute is required exactly when use is 'required'. When an element of the same name and type occurs twice in one complex type it is recorded once and stays repeatable if either occurrence is.",
  ["inputs"], "every value of maxOccurs and use, inside and outside choices",
  BASE + "it uses maxOccurs 1 and unbounded on one element and one choice.",
  ["xmlElement.go", "xmlChoice.go", "xmlGroup.go", "xmlAttribute.go"], [("maxOccurs and use handling", "OnElement, OnChoice, OnGroup, OnAttribute")])

p("C20", "The parser never drops a declaration it has accepted",
  "Each element, attribute, group, attribute-group, simple-type or complex-type start tag that is processed without error is recorded, under its own name, in the enclosing declaration or kept open, and whenever an open declaration is closed (taken off the stack of open declarations) it is added to its parent or to the parse result exactly once, or gives its type to the innermost open element or attribute. Enumeration values, list item types, union member types, restriction bases and extension bases are recorded in the declaration they belong to.",
  ["inputs", "histories"], "every sequence of start and end tags",
  BASE + "each handler is reached in at most a few of the states it distinguishes; groups, unions, lists and top-level attributes never.",
  ["xmlElement.go", "xmlAttribute.go", "xmlAttributeGroup.go", "xmlGroup.go", "xmlComplexType.go", "xmlSimpleType.go", "xmlUnion.go", "xmlList.go", "xmlEnumeration.go", "xmlRestriction.go", "xmlExtension.go"],
  [("push/pop/append in the handlers", "xml*.go")])

p("C21", "Type references resolve to the base they are declared with",
  "Resolving a type reference ignores the prefix and yields, in this order: the language's type for a built-in name; the base of the restricted simple type, or the type of the attribute or element, of that name; otherwise the name itself. List and union simple types are never replaced by their base, and a declaration of another name never influences the result.",
  ["inputs"], "every reference and every set of declarations",
  BASE + "it has one reference to a simple type and no list or union.",
  ["utils.go", "parser.go"], [("getBasefromSimpleType, trimNSPrefix", "utils.go"), ("GetValueType", "parser.go")])

p("C22", "Documents do not leak parser state into each other",
  "Each document is parsed from a clean state: open declarations, nesting flags and the result of an earlier document parsed with the same options do not influence it, and namespace prefixes and import locations declared in one schema document do not change how another document's references are resolved.",
  ["histories", "inputs"], "every sequence of documents parsed with one set of options and every import graph",
  "Every test parses one document with fresh options, and the fixture imports nothing.",
  ["parser.go", "schema.go"], [("reset at the start of Parse", "parser.go Parse"), ("per-document namespace maps", "parser.go GetValueType")],
  state=[("LocalNameNSMap", "prefix to namespace of the current document", "parser.go Options"), ("NSSchemaLocationMap", "namespace to import location", "parser.go Options")])

p("C23", "Independent parsers share no mutable state",
  "Two parsers working on separate options, at the same time or one after the other, cannot influence each other: the library keeps no package-level state that parsing or generating modifies.",
  ["schedules", "histories"], "every interleaving of two or more Parse calls",
  "No test runs two parsers concurrently.",
  ["utils.go", "parser.go"] + GEN, [("state is kept in Options and CodeGenerator", "parser.go, genGo.go")])

p("C24", "Schemas that import each other are parsed in finitely many steps",
  "Parsing terminates for every import and include graph, cyclic ones and self-imports included: during one Parse call on the user's options a schema file is entered for code generation at most once, and looking up types in a file never enters further files.",
  ["inputs"], "every graph of imports and includes",
  "The fixture imports and includes nothing.",
  ["parser.go"], [("ParseFileMap guard and Extract cut-off", "parser.go Parse, GetValueType")],
  state=[("ParseFileMap", "files entered so far", "parser.go Options")])

p("C25", "Imported schemas are generated with the options of the run",
  "Code generated for an imported schema uses the same target language, package name, output directory and input root as the schema that imports it.",
  ["configurations", "inputs"], "every combination of options and every imported schema",
  "The fixture imports nothing, and no test sets a package name.",
  ["parser.go"], [("options of dependent parsers", "parser.go GetValueType")])

p("C26", "The library only touches its own output files",
  "Parsing and generating have no side effects other than reading schema files, creating directories below the output location and writing one file per generated schema whose name ends in the target language's extension. They never delete, rename, change permissions, run programs, use the network, change the environment or end the process.",
  ["inputs", "configurations"], "every path through the library",
  "A side effect on a path no test takes (an error path, a remote location) cannot be seen by any test.",
  ["parser.go", "utils.go"] + GEN, [("file operations", "parser.go Parse, utils.go PrepareOutputDir, Gen*")])

p("C27", "The command line reports failure by exit status and honours its flags",
  "The command exits with a non-zero status and does not print done when an option is missing or unsupported, an input cannot be listed, or any listed schema fails to process; otherwise it processes every listed file and exits zero. Input path, output path, language and package given on the command line reach the parser of every file unchanged, the package being 'schema' when none is given.",
  ["configurations", "fault_sequences"], "every combination of flags, every file of the input, every failing file",
  "The command has no tests.",
  ["cmd/xgen/xgen.go", "utils.go"], [("main, parseFlags", "cmd/xgen/xgen.go"), ("GetFileList", "utils.go")])

p("C28", "Files are closed on every path",
  "Every file the library opens or creates is closed before the call that opened it returns, on success and on every error path.",
  ["inputs", "fault_sequences"], "every path through functions that open files",
  "No test looks at open descriptors, and leaks on error paths need the error to occur.",
  ["parser.go"] + GEN, [("deferred Close", "parser.go Parse, Gen*")])

p("C29", "Generated files identify themselves and their package",
  "Every successfully generated file starts with the line '// Code generated by xgen. DO NOT EDIT.', which comes before everything else; Go and Java files then declare the requested package, or 'schema' when none was requested.",
  ["inputs", "configurations"], "every schema and package name, in every language",
  "The fixture tests never set a package name, so only the default is exercised.",
  ["utils.go"] + GEN, [("copyright header and package clause", "Gen* in gen*.go")])

p("C30", "Declared character encodings are honoured",
  "A schema file in a non-UTF-8 encoding named in its XML declaration is decoded by that encoding, for the root schema and for every schema it depends on: every XML decoder in use has a character-set reader before it reads its first token.",
  ["inputs"], "every declared encoding, in every file",
  "The fixture has no XML declaration.",
  ["parser.go"], [("decoder.CharsetReader", "parser.go Parse")])

p("C31", "Enumeration values are all generated, in order (TypeScript)",
  "A simple type restricted by enumeration is generated in TypeScript as an enum that has one entry for every enumeration value, in schema order, whose value is the schema's value: unquoted for numeric bases, quoted otherwise. This holds for values made of name characters.",
  ["inputs"], "every enumeration of any length over any base",
  BASE + "its only enumeration is anonymous and inside an attribute, so that no enum is ever generated.",
  ["genTypeScript.go", "xmlEnumeration.go"], [("enum template", "TypeScriptSimpleType"), ("facet recording", "OnEnumeration")])

p("C32", "The parser's stacks are last in, first out",
  "Peeking or popping returns the value pushed most recently and not yet popped, and nothing when there is none; popping removes exactly that value, peeking removes nothing; length and emptiness agree with the number of values held.",
  ["histories"], "every sequence of push, pop, peek and length operations",
  "No test uses a stack directly, and the fixture never has more than two values on one.",
  ["stack.go"], [("Push, Pop, Peek, Len, Empty", "stack.go")])

p("C33", "Output files mirror the input tree",
  "The code for a schema is written to the output location joined with the schema's path relative to the input root, with the target language's extension appended unless it is there already, and the directory for it is created first. Two schemas in different directories or with different names never share an output file because of the way the name is formed.",
  ["inputs", "configurations"], "every input tree, output location and file name",
  "The tests use one input directory with one file in it.",
  ["parser.go", "genGo.go", "utils.go"], [("output path", "parser.go Parse"), ("FileWithExtension", "genGo.go"), ("PrepareOutputDir", "utils.go")])

p("C34", "Namespaces, imports and includes are followed as the schema declares them",
  "Every namespace declared on the schema element (with a prefix or as the default), every import's namespace with its schemaLocation (the first one given for a namespace counts) and every include is recorded as declared, whatever other attributes stand around them, and nothing else is; the prefix xml stands for the XML namespace. A reference to a name is looked up in the schema file imported for the namespace its prefix, or the default namespace, stands for: the file at the directory of the referring schema joined with the declared location. Included files are those at that directory joined with their location. Locations that are URLs with a scheme and a host are not followed; all others are files.",
  ["inputs", "configurations"], "every set of namespace declarations, imports and includes, every directory layout",
  "The fixtures import one schema lying in the same directory.",
  ["schema.go", "xmlSchema.go", "xmlImport.go", "xmlInclude.go", "parser.go", "utils.go"],
  [("prefix and location maps", "schema.go"), ("included files", "xmlInclude.go OnInclude"), ("lookup", "parser.go GetValueType"), ("remote locations", "utils.go isValidURL"), ("directory", "parser.go Parse")])

p("C35", "Documentation reaches the declaration it documents, and its code",
  "Text in the annotation of an attribute, attribute group, element, simple type, complex type or group is recorded, without the space around it, as the documentation of that declaration and of no other: blank text changes nothing; text in a local element or attribute does not become the documentation of the type or group around it, nor text in an enumerated value that of the simple type; the anonymous type of an element takes over the element's documentation; all character data of the document is considered. Every declaration generated, in every language, follows a comment that begins with the declared identifier and contains every line of the declaration's documentation.",
  ["inputs", "configurations"], "every text, every nesting of declarations, every kind of declaration, five languages",
  "No fixture has an annotation: neither the handler of character data nor the comment of a documented declaration is ever run by a test.",
  ["xmlCharData.go", "xmlComplexType.go", "parser.go", "utils.go"] + GEN,
  [("recording", "xmlCharData.go OnCharData"), ("anonymous types", "xmlComplexType.go OnComplexType"), ("comments", "utils.go genFieldComment"), ("declarations", "gen*.go")])

# Not applicable to static analysis (see DESIGN.md and MANIFEST.json)
p("N01", "Generated code compiles for every valid schema",
  "For every valid schema the generated code compiles with the target language's compiler.",
  ["inputs"], "every valid schema, five compilers",
  BASE + "the output of four languages is never compiled.",
  GEN, [("all templates", "gen*.go")])
p("N02", "Generated Go types round-trip every valid document",
  "Unmarshalling a document that is valid against the schema into the generated Go types and marshalling it again loses nothing.",
  ["inputs"], "every schema and every valid document",
  "One document is tried.",
  ["genGo.go"], [("struct tags", "genGo.go")])
p("N03", "The parse result mirrors the nesting of the schema",
  "Every named top-level declaration appears in the parse result exactly once, under its own name and with exactly the children nested in it, whatever is nested how deeply.",
  ["inputs", "histories"], "every schema document",
  BASE + "few nestings occur in it.",
  ["xml*.go"], [("stacks and flags", "parser.go Options")])
p("N04", "Names are resolved by namespace, not by prefix or local name",
  "References to types of the same local name in different namespaces resolve to the type of the namespace the prefix is bound to, and elements outside the XML Schema namespace are never taken for schema components.",
  ["inputs"], "every schema with several namespaces",
  "The fixture has one target namespace.",
  ["parser.go", "schema.go", "utils.go"], [("parseNS, trimNSPrefix", "schema.go, utils.go")])
p("N05", "Processing time and memory stay proportional to the schema",
  "Processing takes time and memory bounded by a small polynomial in the total size of the schemas involved.",
  ["inputs"], "every schema, in particular many includes",
  "The fixture is tiny.",
  ["parser.go"], [("repeated include extraction", "parser.go GetValueType")])
with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
