#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long statements stay readable)."""
import json, os
P = []
CMP = "pkg/compare/compare.go"
LR = "pkg/linter/rules.go"
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(qtext.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

DOCS = """every pair (old, new) of schema documents the parser accepts whose names are unique where GraphQL
requires it (types, fields, arguments, enum values, directive definitions, union members, implemented
interfaces, root operations); any number of types, members, files and extensions"""
OBS = ["FindChangesInSchemas(old, new) and the getters of each Change", "stdout of 'gql compare'"]
WHY = """the tests compare a few dozen hand-written schema pairs, one edit each, and look only at the first
change returned; which change is reported for which combination of edits, nesting and neighbouring
elements is a statement over all pairs of documents. """

prop("C01", "Type additions, removals and kind changes are reported exactly",
 """A type present only in the old schema yields exactly one breaking TYPE_REMOVED, one present only in the new
 schema exactly one non-breaking TYPE_ADDED, and one present in both with different kinds exactly one breaking
 TYPE_KIND_CHANGED, each with the type's name as path; no other change of these types is reported. Base
 definitions and extensions are matched separately, and all extensions of one type in a document together
 count as one extended type.""", ["inputs"], DOCS, WHY, [CMP],
 [("type matching and classification", CMP+":changeInTypes, checkTypeRemoved, checkTypeAdded")], observe=OBS)
prop("C02", "Field changes on objects and interfaces are classified by output variance",
 """For a type that is an object in both schemas or an interface in both (the base definition, and separately
 its extensions), each field only in old yields exactly one breaking FIELD_REMOVED, each field only in new
 exactly one non-breaking FIELD_ADDED, and each field in both whose type differs exactly one FIELD_TYPE_CHANGED.
 A type change is non-breaking exactly when the new type may be returned wherever the old one was: same named
 type and list nesting, with non-null added but never dropped at any level; otherwise it is breaking. The path is
 Type.field, and nothing else is reported under these change types.""",
 ["inputs"], DOCS+"; types of any list nesting depth",
 WHY+"Tests reach type wrappers at most two levels deep.", [CMP],
 [("field matching", CMP+":changeInFields, checkFieldsAdded, checkFieldTypeChanged"),
  ("output variance", CMP+":isSafeChangeForFieldType")], observe=OBS)
prop("C03", "Field argument changes are classified by input variance",
 """For each field kept on an object or interface: an argument only in old yields exactly one breaking
 FIELD_ARGUMENT_REMOVED; one only in new exactly one FIELD_ARGUMENT_ADDED, breaking if its type is non-null and
 dangerous otherwise; a changed default value exactly one dangerous FIELD_ARGUMENT_DEFAULT_CHANGED; a changed
 type exactly one FIELD_ARGUMENT_TYPE_CHANGED, non-breaking exactly when the new type accepts everything the old
 one did (same named type and list nesting, non-null dropped but never added at any level) and breaking
 otherwise. The path is Type.field.argument, and nothing else is reported under these change types.""",
 ["inputs"], DOCS+"; types of any list nesting depth", WHY, [CMP],
 [("argument matching", CMP+":changeInArgument, checkFieldArgumentAdded, checkFieldArgumentTypeChanged"),
  ("input variance", CMP+":isSafeChangeForInputValue")], observe=OBS)
prop("C04", "Input object field changes are classified by input variance",
 """For each type that is an input object in both schemas (base definition, and separately its extensions): a
 field only in old yields exactly one breaking INPUT_FIELD_REMOVED; one only in new exactly one INPUT_FIELD_ADDED,
 breaking if its type is non-null and dangerous otherwise; a changed default value exactly one dangerous
 INPUT_FIELD_DEFAULT_VALUE_CHANGED; a changed type exactly one INPUT_FIELD_TYPE_CHANGED, non-breaking exactly
 when the new type accepts everything the old one did and breaking otherwise. The path is Type.field, and
 nothing else is reported under these change types.""",
 ["inputs"], DOCS+"; types of any list nesting depth", WHY, [CMP],
 [("input field matching", CMP+":changeInInputFields, checkInputFieldsAdded, checkInputFieldTypeValueChanged"),
  ("input variance", CMP+":isSafeChangeForInputValue")], observe=OBS)
prop("C05", "Enum value additions are dangerous and removals breaking, one report each",
 """For each type that is an enum in both schemas (base definition, and separately its extensions), every value
 only in old yields exactly one breaking ENUM_VALUE_REMOVED and every value only in new exactly one dangerous
 ENUM_VALUE_ADDED, with path Enum.VALUE. Nothing else is reported under these change types; in particular
 reordering values reports nothing.""",
 ["inputs"], DOCS, WHY, [CMP], [("enum comparison", CMP+":changeInEnum, checkEnumValuesAdded")], observe=OBS)
prop("C06", "Union membership and implemented interfaces are compared as sets",
 """For each type that is a union in both schemas, every member only in old yields exactly one breaking
 UNION_MEMBER_REMOVED and every member only in new one dangerous UNION_MEMBER_ADDED; for each type that is an object in
 both, every implemented interface only in old yields exactly one breaking OBJECT_TYPE_INTERFACE_REMOVED and every one
 only in new one dangerous OBJECT_TYPE_INTERFACE_ADDED. The path is the type name, and nothing else is reported
 under these change types, whatever the order of members or interfaces.""",
 ["inputs"], DOCS, WHY, [CMP],
 [("set comparison by nested search", CMP+":checkUnionMemberRemoved, checkUnionMemberAdded, checkTypeInterfaceRemoved, checkTypeInterfacesAdded")], observe=OBS)
prop("C07", "Directive definition changes are reported exactly, with their severity",
 """For directive definitions: only in old, one breaking DIRECTIVE_REMOVED; only in new, one non-breaking
 DIRECTIVE_ADDED; in both, one breaking DIRECTIVE_LOCATION_REMOVED or non-breaking DIRECTIVE_LOCATION_ADDED per location
 dropped or gained, one breaking DIRECTIVE_REPEATABLE_REMOVED or non-breaking DIRECTIVE_REPEATABLE_ADDED when the flag is
 lost or gained (path @directive in all of these). Per argument (path @directive.argument): only in old, one breaking
 DIRECTIVE_ARGUMENT_REMOVED; only in new, one DIRECTIVE_ARGUMENT_ADDED, breaking if non-null and non-breaking otherwise;
 changed type, one DIRECTIVE_ARGUMENT_TYPE_CHANGED judged by input variance; changed default, one dangerous
 DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED. Nothing else is reported for directive definitions under these types.""",
 ["inputs"], DOCS, WHY, [CMP],
 [("directive definition comparison", CMP+":changeInDirective, checkDirectiveAdded, checkDirectiveLocationChanged, checkDirectiveRepeatableChanged, changeInDirectiveArguments, checkDirectiveArgumentAdded, checkDirectiveArgumentTypeChanged")], observe=OBS)
prop("C08", "Directives applied to types, fields and input fields are compared exactly",
 """On each object or interface type kept with its kind, on each of its kept fields and on each kept input field, for each
 applied directive of the old schema other than @deprecated: no directive of that name left yields one dangerous
 DIRECTIVE_REMOVED; exactly one application on both sides yields one dangerous DIRECTIVE_ARGUMENT_REMOVED or
 DIRECTIVE_ARGUMENT_VALUE_CHANGED per argument dropped or changed and one non-breaking DIRECTIVE_ARGUMENT_ADDED per argument
 gained; repeated applications yield one dangerous DIRECTIVE_CHANGED exactly when no new application has the same set of
 arguments with the same values. Each new application whose name was not applied before yields one non-breaking
 DIRECTIVE_ADDED.""",
 ["inputs"], DOCS+"; repeated applications with any number of arguments, including none", WHY, [CMP],
 [("applied directive comparison", CMP+":changeInTypeFieldDirectives, checkFieldDirectiveArgumentAdded, checkFieldDirectiveArgumentChanged, checkFieldDirectiveAdded")], observe=OBS)
prop("C09", "Gaining or losing @deprecated is dangerous; rewording its reason is not",
 """For each kept field of an object, interface or input object and each kept enum value: gaining @deprecated yields exactly
 one dangerous ..._DEPRECATION_ADDED change of the element's category (FIELD, INPUT_FIELD or ENUM_VALUE), losing it exactly
 one dangerous ..._DEPRECATION_REMOVED, and a different explicit reason on both sides exactly one non-breaking
 ..._DEPRECATION_REASON_CHANGED, with path Type.member. Nothing else is reported under these change types.""",
 ["inputs"], DOCS, WHY, [CMP, "README.md"],
 [("deprecation comparison", CMP+":checkFieldDeprecationChanged, checkEnumValueDeprecationChanged")], observe=OBS)
prop("C10", "Description edits are always reported once and never worse than non-breaking",
 """Each type, field, field argument, input field, enum value, directive definition and directive argument kept between the
 schemas yields exactly one ..._DESCRIPTION_CHANGED change of its category when its description differs and none when
 it does not, always non-breaking, with the element's path. Editing descriptions alone never produces any other change.""",
 ["inputs"], DOCS, WHY, [CMP],
 [("description comparison in each category", CMP)], observe=OBS)
prop("C11", "Root operation changes are reported for query, mutation and subscription",
 """For each of query, mutation and subscription, separately for the schema definition and for all schema extensions taken
 together: an operation only in old yields exactly one breaking change of that operation's SCHEMA_..._TYPE_CHANGED type, one
 whose type name differs exactly one breaking change, one only in new exactly one non-breaking change, and an equal or
 absent operation none.""",
 ["inputs"], DOCS, WHY+"No test has a schema extension or more than one schema block.", [CMP],
 [("root operations", CMP+":changeInSchema, changesInSchemaOperation, getOperationForName")], observe=OBS)
prop("C12", "Comparing a schema with itself reports nothing",
 """Comparing any schema document with an identical copy of itself yields no change at all, whatever it contains: repeated
 directives with or without arguments, several extensions of one type, several schema blocks, nested list types, default
 values.""", ["inputs"], "every schema document the parser accepts with names unique where GraphQL requires it",
 "no test compares a schema with itself; the claim ranges over all documents", [CMP],
 [("every comparison function", CMP)], observe=OBS)
prop("C13", "Comparing and linting never crash and never modify the parsed schemas",
 """For every schema document the parser accepts, comparing it with any other, grouping and printing the changes, and running
 every lint rule on it complete without a run-time panic (nil dereference, index out of range), and no element of
 either document is written to.""", ["inputs"],
 """every pair of documents the parser accepts (elements and their types and positions non-nil, names non-empty); every list
 of changes returned by the comparison""",
 "tests sample a few dozen documents; absence of panics and of writes is a statement over all documents",
 [CMP, LR, "pkg/linter/lint_error.go"],
 [("nil checks before use of looked-up elements", CMP), ("positions carried by every change", CMP+":less, getPosition")],
 observe=["process exit without panic", "deep equality of the documents before and after"])
prop("C14", "Grouping and printing lose no change and mix no severity",
 """Grouping puts every change into the group of its own severity and in no other, exactly as often as it was reported. Each
 printing routine prints, for each change it is given, exactly one line that carries its severity's icon and the change's message, and
 file:line of the change when positions are requested (and none when they are not), and returns the number of changes given.""",
 ["inputs"], "every list of changes, of any length, with any mix of severities and positions",
 "no test calls the grouping or printing functions", [CMP],
 [("grouping", CMP+":GroupChanges"), ("printing", CMP+":ReportBreakingChanges, ReportDangerousChanges, ReportNonBreakingChanges, getPosition")],
 observe=["GroupChanges result", "stdout", "return value"])
prop("C15", "gql compare exits non-zero exactly when it must block",
 """gql compare -o OLD -n NEW exits 0 exactly when both paths are given and differ, both sets of files can be read and
 parsed, and no breaking change from OLD to NEW was found; otherwise it exits non-zero. Dangerous and non-breaking changes
 are printed unless breaking-change-only is requested, breaking changes always.""",
 ["inputs", "configurations"], "every combination of flags, of read and parse outcomes and of lists of changes",
 "no test runs the command", ["cmd/compare/compare_cmd.go", "utils/util.go"],
 [("command body", "cmd/compare/compare_cmd.go:NewCompareCmd")], observe=["exit status", "stdout"])
prop("C16", "Every change names what changed and points at a real source position",
 """The message of every reported change contains the name of the changed element and of the type, field or directive that owns
 it, and for a changed type, default, kind, value or root operation type the old value and after it the new value. Its position is
 the source position of the changed element or of the element that owns it, in one of the two compared documents, so printed
 file and line lead the user there.""",
 ["inputs"], DOCS, WHY+"No test looks at a message, path or position.", [CMP],
 [("message, path and position of each Change literal", CMP)], observe=OBS)
prop("C17", "Output order does not depend on map iteration",
 """For the same command line, files and flags, the sequence of lines printed by gql compare and by gql lint, the order of the
 list of changes, and the order in which files are parsed and merged are the same on every run; no result depends on the iteration order of a map.""",
 ["inputs", "schedules"], "every input, and every order in which the runtime may enumerate a map",
 "map order is random per run; tests use single files and single changes, for which it cannot be seen",
 [CMP, "cmd/linter/lint_cmd.go", "utils/util.go"],
 [("ordered traversal", CMP+":changeInTypes"), ("ordered traversal of files", "cmd/linter/lint_cmd.go:FindLintErrors, utils/util.go:ParseSchema")],
 observe=["stdout", "order of FindChangesInSchemas result"])

LDOCS = "every schema document the parser accepts with names unique where GraphQL requires it, of any size, including extensions"
LWHY = "the tests give each rule a handful of small documents and mostly check only whether any error was found; exactness per element is a statement over all documents. "
prop("L01", "Description rules flag exactly the undescribed elements",
 """type-desc flags each type definition without a description; field-desc each field of a definition or extension (input
 fields included); args-desc each argument of a field of an object, interface or extension of one; enum-desc each enum
 value of an enum or enum extension. Each such element gives exactly one error, of that rule, at the element's own position (for a field:
 at its type's position), naming the element; described elements give none.""",
 ["inputs"], LDOCS, LWHY, [LR],
 [("rules", LR+":TypesHaveDescription, FieldsHaveDescription, ArgumentsHaveDescription, EnumValuesHaveDescriptions")],
 observe=["errors returned by each rule", "stdout of gql lint"])
prop("L02", "Naming rules flag exactly the misnamed elements",
 """enum-caps flags each value of an enum or enum extension whose name is not equal to its upper-case form; field-camel each field of a definition or
 extension whose name is not a lower-case ASCII letter followed only by ASCII letters and digits; type-caps each definition
 or extension whose name starts with a lower-case ASCII letter. Each such element gives exactly one error, of that rule, at the element's
 position (for a field: at its type's position), naming it; others give none.""",
 ["inputs"], LDOCS+"; names over the full GraphQL alphabet", LWHY, [LR],
 [("rules", LR+":EnumValuesAreAllCaps, FieldsAreCamelCased, TypesAreCapitalized")],
 observe=["errors returned by each rule", "stdout of gql lint"])
prop("L03", "relay-conn-type enforces the Relay connection type shape exactly",
 """For each definition (not extension) whose name ends in Connection: one error if it is not an object, and nothing more for it;
 otherwise one error if it has no edges field, one if edges is not a list, one if it has no pageInfo field, and one if
 pageInfo is not exactly non-null PageInfo. Each is a relay-conn-type error at the type's position for a missing field or wrong kind and at the field's type's
 position for a wrong field type; no other error is produced.""",
 ["inputs"], LDOCS, LWHY, [LR], [("rule", LR+":RelayConnectionTypesSpec, isFieldListType")],
 observe=["errors returned by the rule", "stdout of gql lint"])
prop("L04", "relay-conn-args enforces the Relay pagination arguments exactly",
 """For each field of a definition (not extension) whose innermost type name ends in Connection: one relay-conn-args error at the field's type's position unless it has both
 first and after, or both last and before; one error at the argument's position for a first (respectively last) argument that is not an Int, or that is
 non-null although the opposite pair of pagination arguments is complete, a list counting as not an Int. No other error is produced.""",
 ["inputs"], LDOCS, LWHY, [LR], [("rule", LR+":RelayConnectionArgumentsSpec, isArgListType")],
 observe=["errors returned by the rule", "stdout of gql lint"])
prop("L05", "Rule selection applies exactly the requested rules",
 """With no rule requested all nine rules apply; otherwise exactly the named ones, in the order given, matched ignoring case
 and surrounding white space. Any unknown name makes the command fail (non-zero exit) instead of being skipped, and each rule name selects the rule
 documented under that name.""",
 ["inputs", "configurations"], "every list of requested rule names",
 "no test covers the command packages", ["cmd/linter/lint_cmd.go", LR],
 [("selection", "cmd/linter/lint_cmd.go:FindTheRulesToApply"), ("rule table", LR+":AllTheRules")],
 observe=["rules applied, by their effect", "exit status"])
prop("L06", "Inline lint comments suppress exactly the errors they cover",
 """An error of rule R on line n is suppressed exactly when a #lint-disable-line comment naming R is on line n, or the last
 #lint-disable/#lint-enable comment naming R on a line before n is a #lint-disable. Comments naming only other rules, or with
 an unknown #lint- command, change nothing, and rule names match ignoring case.""",
 ["inputs"], "every sorted or unsorted list of errors and every list of inline configurations, in file order",
 "no test covers inline configuration", ["cmd/linter/linter.go"],
 [("suppression", "cmd/linter/linter.go:filterErrors, contains")], observe=["errors returned by Lint", "stdout of gql lint"])
prop("L07", "Every #lint- comment is recognised, on its own line, without crashing",
 """For every document the parser accepts, each comment token starting with #lint- followed by disable, enable or disable-line
 and a comma-separated list of rules takes effect with that command, those rules (white space trimmed) and that comment's line; every other
 comment, however malformed, is ignored without a panic, and text inside strings is never taken for a comment.""",
 ["inputs"], "every document text the parser accepts, any placement and content of comments",
 "no test covers inline configuration", ["cmd/linter/inline_lint_config.go", "cmd/linter/linter.go"],
 [("comment scan", "cmd/linter/inline_lint_config.go:extractInlineLintConfiguration, sanitizeRules"),
  ("comment syntax", "cmd/linter/linter.go:inlineLintConfigurationRegex")], observe=["errors returned by Lint", "stdout of gql lint"])
prop("L08", "Lint reports every rule's errors once, sorted by line and column",
 """The errors reported for a file are exactly those returned by the selected rules that are not suppressed, each as often as
 the rules returned it, in non-decreasing order of line and, within a line, of column.""",
 ["inputs"], "every document, every selection of rules and every list of errors they return",
 "no test covers Lint or the ordering", ["cmd/linter/linter.go", "pkg/linter/lint_error.go"],
 [("collection and filtering", "cmd/linter/linter.go:Lint"), ("ordering", "pkg/linter/lint_error.go:Less, Swap, Len, GetSortedErrors")],
 observe=["errors returned by Lint", "stdout of gql lint"])
prop("L09", "gql lint exits non-zero exactly when an unsuppressed error remains",
 """Over all linted files, the status is 1 if any file has a remaining lint error and 0 if none has; every remaining error of
 every file is printed exactly once, prefixed with its file, line and column, and the printed total is the number of them.""",
 ["inputs"], "every set of files and every list of errors per file", "no test covers the command packages",
 ["cmd/linter/lint_cmd.go"], [("aggregation", "cmd/linter/lint_cmd.go:FindLintErrors, errorPresenter")],
 observe=["exit status", "stdout"])
prop("L10", "The comment-aware lexer agrees with the parser's lexer on every document",
 """On every input text the linter's lexer produces the same sequence of non-comment tokens (kind, value, start, end, line and column) as the
 parser's own lexer, failing only where that one fails, never panics, and always reaches the end of the input; every # outside a string starts a comment token that extends to the end of its line and carries
 that line's number.""",
 ["inputs"], "every byte string, including invalid UTF-8, all line-terminator forms and unterminated tokens",
 "no test covers the lexer; agreement is a statement over all texts",
 ["cmd/linter/lexer/lexer.go", "cmd/linter/lexer/blockstring.go", "cmd/linter/lexer/token.go"],
 [("scanner", "cmd/linter/lexer/lexer.go:ReadToken, ws, readComment, readNumber, readString, readBlockString, readName"),
  ("block string value", "cmd/linter/lexer/blockstring.go:blockStringValue")], observe=["token sequence", "panics"])
prop("U01", "Every matching schema file is loaded, or the command fails",
 """Loading a path pattern returns the full content of every file matching it, keyed by file name, and of no other file; if the
 pattern is malformed, matches nothing, or any matching file cannot be opened or read, it returns an error. Parsing the loaded files
 passes every one of them, under its name and with its full content, to the parser exactly once and fails if the parser does.""",
 ["inputs", "fault_sequences"], "every set of files, every pattern, and every failure of opening or reading one of them",
 "tests load one existing file; failures and several files are never exercised", ["utils/util.go"],
 [("reading", "utils/util.go:ReadFiles"), ("parsing", "utils/util.go:ParseSchema")], observe=["returned map, document and error"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
