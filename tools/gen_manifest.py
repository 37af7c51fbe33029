#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the claims below."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
reg = set()
for f in os.listdir(os.path.join(ROOT, "xgenlint")):
    if f.endswith(".go"):
        reg |= set(re.findall(r'register\("(C\d\d)"', open(os.path.join(ROOT, "xgenlint", f)).read()))
ENGINE = "abstract interpretation of the SSA form with trace partitioning over symbolic terms"
T = {
 "C01": "evaluation of the type resolver's path summaries over all built-in names; symbolic text templates of the emitters",
 "C02": "partition summaries of main, Parse and the generators compared over the language constants",
 "C03": "loop and effect summaries of the generators and emitters",
 "C15": "order/effect analysis over SSA: map ranges, non-deterministic sources",
 "C16": "error-flow analysis over all path partitions",
 "C17": "hazard (nil, index, assertion, reflection) analysis with typestate invariants of the parser's stacks",
 "C18": "loop-carried dependence analysis of the attribute loops",
 "C19": "symbolic summaries of the occurrence and use readers",
 "C20": "stack-effect (typestate) summaries of the parser's handlers",
 "C21": "path summaries of the resolver functions compared with the specified resolution order",
 "C22": "definite-initialisation and aliasing analysis of parser state",
 "C23": "global mutability (ownership) analysis",
 "C24": "guard analysis of recursive entries into Parse",
 "C25": "value-flow analysis of the options of nested parsers",
 "C26": "effect analysis over the call graph",
 "C27": "path summaries of the command's main function",
 "C28": "typestate analysis of files over all path partitions",
 "C29": "symbolic text template of the generated file",
 "C30": "typestate analysis of XML decoders",
 "C32": "refinement check of the stack methods' summaries against a list model",
 "C33": "symbolic path terms of the output file",
 "C34": "symbolic summaries of the reference handlers evaluated on map contents; symbolic path terms of the files read",
    "C35": "partitions of the text handler evaluated per situation; comment templates of the emitters evaluated on documentation; must-call analysis of the token loop",
}
NOTE = ("Static: decided on /repo's current SSA on every run; nothing of xgen is executed. All path partitions of the functions named in the "
        "evidence are covered, loops through a summary of an arbitrary iteration. Trusts the analyser and its models of the standard library; "
        "what it cannot express is listed as undecided in the evidence and not reported as a violation.")
NOTE_X = json.load(open(os.path.join(HERE, "notes.json"))) if os.path.exists(os.path.join(HERE, "notes.json")) else {}
NA = {
 "N01": "Needs the semantics of five compilers and of arbitrary schemas: beyond per-declaration syntax (C11) and naming (C12-C14) it asks whether every reference resolves in the generated program, which depends on which declarations a run-time schema contains; no static argument over xgen's source bounds that.",
 "N02": "Quantifies over documents processed by encoding/xml at run time with generated types; the statement is about programs xgen writes, for schemas not known statically. The parts visible in the templates are C04-C08.",
 "N03": "An inductive statement over nesting of unbounded depth about the joint effect of 29 handlers on 7 stacks; the known handlers do not keep it (a group with an inline complex type, an element without type, nested attribute group references), and an abstraction that is sound and precise enough to separate the kept from the broken nestings is out of reach. Its per-handler part is C20.",
 "N04": "The code keeps no namespace binding with its types (names are looked up by local name by design), so the property is false by design of the tree, not by a construct a rule could point at; deciding it for given schemas needs run-time namespace tables.",
 "N05": "A statement about running time; the number of parses depends on run-time sizes of include sets, which no static bound in reach captures.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "XGENLINT_TIER=thorough ./check.sh " + i,
            "technique": "static analysis: " + T.get(i, "symbolic text templates of the emitters (" + ENGINE + "), parsed with the target language's declaration grammar"),
            "level": "other", "level_note": NOTE_X.get(i, "") + (" " if i in NOTE_X else "") + NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check in place yet")})
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
     "notes": "One analyser (/verif/xgenlint) decides every property; see DESIGN.md. No hooks in /repo. Findings: known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed", [x["property"] for x in na])
