From a93e0a272ce966c1aa0b0eafb63d90f1a51a2bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 01/11] fix: compare a type's definition and its extensions
 separately and in source order

The map of persisted types was keyed by name and shared by definitions and
extensions, so the extension of a type replaced its definition and changes in
the definition were missed; iterating the map also made the order random.
---
 pkg/compare/compare.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index e7b66b9..1706745 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -275,19 +275,28 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 // changeInTypes change in al the types
 func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument) []*Change {
 	var changes []*Change
-	persistedType := map[string][]*ast.Definition{}
-	//Check if types added/removed/persisted
-	changes = append(changes, checkTypeRemoved(oldSchema.Definitions, newSchema.Definitions, persistedType, false)...)
+	//Check if types added/removed
+	changes = append(changes, checkTypeRemoved(oldSchema.Definitions, newSchema.Definitions, false)...)
 	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, false)...)
 
-	//Check if extended types added/removed/persisted
-	changes = append(changes, checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, persistedType, true)...)
+	//Check if extended types added/removed
+	changes = append(changes, checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, true)...)
 	changes = append(changes, checkTypeAdded(oldSchema.Extensions, newSchema.Extensions, true)...)
 
-	//compare persisted types for changes in fields/directives
-	for _, defs := range persistedType {
-		ot := defs[0]
-		nt := defs[1]
+	//compare persisted types and persisted extended types, a type can be both defined and extended in a schema
+	changes = append(changes, changeInPersistedTypes(oldSchema.Definitions, newSchema.Definitions)...)
+	changes = append(changes, changeInPersistedTypes(oldSchema.Extensions, newSchema.Extensions)...)
+	return changes
+}
+
+// changeInPersistedTypes compare types present in both the schemas for changes in fields/directives
+func changeInPersistedTypes(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList) []*Change {
+	var changes []*Change
+	for _, ot := range oldSchemaDefs {
+		nt := newSchemaDefs.ForName(ot.Name)
+		if nt == nil {
+			continue
+		}
 		if ot.Kind == ast.Enum && nt.Kind == ast.Enum {
 			changes = append(changes, changeInEnum(ot, nt)...)
 		}
@@ -328,7 +337,7 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	return changes
 }
 
-func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, persistedType map[string][]*ast.Definition, isExtended bool) []*Change {
+func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, isExtended bool) []*Change {
 	var changes []*Change
 	for _, ot := range oldSchemaDefs {
 		nt := newSchemaDefs.ForName(ot.Name)
@@ -345,8 +354,6 @@ func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.Defini
 				path:             ot.Name,
 				position:         ot.Position,
 			})
-		} else {
-			persistedType[ot.Name] = []*ast.Definition{ot, nt}
 		}
 	}
 	return changes
-- 
2.43.0


From 6c7a9395c140701dba821390a23a091ee427742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 02/11] fix: compare all the extensions of a type together

Only the first extension of a type was matched by name, so a schema with two
extensions of one type showed changes even against itself.
---
 pkg/compare/compare.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 1706745..eefb132 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -275,20 +275,44 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 // changeInTypes change in al the types
 func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument) []*Change {
 	var changes []*Change
+	oldExtensions, newExtensions := mergeExtensions(oldSchema.Extensions), mergeExtensions(newSchema.Extensions)
 	//Check if types added/removed
 	changes = append(changes, checkTypeRemoved(oldSchema.Definitions, newSchema.Definitions, false)...)
 	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, false)...)
 
 	//Check if extended types added/removed
-	changes = append(changes, checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, true)...)
-	changes = append(changes, checkTypeAdded(oldSchema.Extensions, newSchema.Extensions, true)...)
+	changes = append(changes, checkTypeRemoved(oldExtensions, newExtensions, true)...)
+	changes = append(changes, checkTypeAdded(oldExtensions, newExtensions, true)...)
 
 	//compare persisted types and persisted extended types, a type can be both defined and extended in a schema
 	changes = append(changes, changeInPersistedTypes(oldSchema.Definitions, newSchema.Definitions)...)
-	changes = append(changes, changeInPersistedTypes(oldSchema.Extensions, newSchema.Extensions)...)
+	changes = append(changes, changeInPersistedTypes(oldExtensions, newExtensions)...)
 	return changes
 }
 
+// mergeExtensions combine all the extensions of each type into one, as a type can be extended more than once
+func mergeExtensions(extensions ast.DefinitionList) ast.DefinitionList {
+	var merged ast.DefinitionList
+	for _, first := range extensions {
+		if extensions.ForName(first.Name) != first {
+			continue //already combined with the first extension of the type
+		}
+		combined := *first
+		combined.Directives, combined.Interfaces, combined.Fields, combined.Types, combined.EnumValues = nil, nil, nil, nil, nil
+		for _, ext := range extensions {
+			if ext.Name == first.Name {
+				combined.Directives = append(combined.Directives, ext.Directives...)
+				combined.Interfaces = append(combined.Interfaces, ext.Interfaces...)
+				combined.Fields = append(combined.Fields, ext.Fields...)
+				combined.Types = append(combined.Types, ext.Types...)
+				combined.EnumValues = append(combined.EnumValues, ext.EnumValues...)
+			}
+		}
+		merged = append(merged, &combined)
+	}
+	return merged
+}
+
 // changeInPersistedTypes compare types present in both the schemas for changes in fields/directives
 func changeInPersistedTypes(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList) []*Change {
 	var changes []*Change
-- 
2.43.0


From 44d8d60714925e79eebeba1aa8b08d82cc400f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 03/11] fix: a repeated directive without arguments matches an
 equal directive

haveSameArgVals was only set while comparing an argument, so repeated
directives without arguments were always reported as changed.
---
 pkg/compare/compare.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index eefb132..f8efb49 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -1154,6 +1154,7 @@ func changeInTypeFieldDirectives(oDirs ast.DirectiveList, nDirs ast.DirectiveLis
 				haveSameArgVals := false
 				for _, nd := range nDirList {
 					if len(od.Arguments) == len(nd.Arguments) {
+						haveSameArgVals = true // a directive without arguments has nothing to compare
 						for _, oArg := range od.Arguments {
 							nArg := nd.Arguments.ForName(oArg.Name)
 							if nArg != nil && oArg.Value.String() == nArg.Value.String() {
-- 
2.43.0


From 2cf1bfca197980e8691f8d987942003c9c1f08e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 04/11] fix: type-caps flags types that start with the letter a

---
 pkg/linter/rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index 56bdc5e..1fd80c4 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -299,7 +299,7 @@ func FieldsAreCamelCased(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
 	for _, typeDefinition := range schema.Definitions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 97 && typeDefinition.Name[0] <= 122 {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
@@ -311,7 +311,7 @@ func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	}
 	// extended types are not included in schema.definitions but schema.extensions
 	for _, typeDefinition := range schema.Extensions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 97 && typeDefinition.Name[0] <= 122 {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
-- 
2.43.0


From 672bd905df47aa62c88a03040459ef4efa35d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 05/11] fix: do not panic on a #lint- comment without a command

---
 cmd/linter/inline_lint_config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/linter/inline_lint_config.go b/cmd/linter/inline_lint_config.go
index 3b5b8bf..d123988 100644
--- a/cmd/linter/inline_lint_config.go
+++ b/cmd/linter/inline_lint_config.go
@@ -50,6 +50,9 @@ func extractInlineLintConfiguration(source *ast.Source) []InlineLintConfig {
 	// Now that we know which lines have lint configs in comments, lets parse them
 	for _, linConfig := range inlineLintConfigs {
 		matchGroups := inlineLintConfigurationRegex.FindStringSubmatch(linConfig.value)
+		if matchGroups == nil {
+			continue // not a lint command e.g. "#lint-" followed by nothing
+		}
 		switch matchGroups[1] {
 		case string(lintDisable):
 			rulesString := matchGroups[2]
-- 
2.43.0


From 11e7b768b0e8cbbb6f93187dd6e798ea26fa9c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 06/11] fix: report the removal of an enum value's deprecation

The README lists it as a dangerous change and it is reported for fields and
input fields, but nothing was reported for enum values.
---
 pkg/compare/compare.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index f8efb49..e24957b 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -59,6 +59,8 @@ const (
 	EnumValueDeprecationReasonChanged ChangeType = "ENUM_VALUE_DEPRECATION_REASON_CHANGED"
 	// EnumValueDeprecationAdded Enum Value Deprecation Added
 	EnumValueDeprecationAdded ChangeType = "ENUM_VALUE_DEPRECATION_ADDED"
+	// EnumValueDeprecationRemoved Enum Value Deprecation Removed
+	EnumValueDeprecationRemoved ChangeType = "ENUM_VALUE_DEPRECATION_REMOVED"
 	// FieldRemoved Field Removed
 	FieldRemoved ChangeType = "FIELD_REMOVED"
 	// FieldAdded Field Added
@@ -661,6 +663,15 @@ func checkEnumValueDeprecationChanged(oDef *ast.Definition, nv *ast.EnumValueDef
 			position:         nv.Position,
 		})
 	}
+	if oDep != nil && nDep == nil {
+		changes = append(changes, &Change{
+			changeType:       EnumValueDeprecationRemoved,
+			criticalityLevel: Dangerous,
+			message:          fmt.Sprintf("Enum value '%s' deprecation removed in enum '%s' ", ov.Name, oDef.Name),
+			path:             fmt.Sprintf("%s.%s", oDef.Name, ov.Name),
+			position:         nv.Position,
+		})
+	}
 	if oDep != nil && nDep != nil {
 		oReason := oDep.Arguments.ForName("reason")
 		nReason := nDep.Arguments.ForName("reason")
-- 
2.43.0


From 4f1c8f9609cddac16f1c647eb94691044b26b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 07/11] fix: compare the root operations of all schema blocks

Only the first schema definition or extension of each document was read, so
operations set by a second 'extend schema' were missed.
---
 pkg/compare/compare.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index e24957b..dc79540 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -199,38 +199,38 @@ func changeInSchema(oldSchemaDefs ast.SchemaDefinitionList, newSchemaDefs ast.Sc
 		return changes
 	}
 	if len(oldSchemaDefs) > 0 && len(newSchemaDefs) == 0 {
-		oldQuery := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Query)
+		oldQuery := getOperationForName(oldSchemaDefs, ast.Query)
 		changes = append(changes, changesInSchemaOperation(oldQuery, nil, ast.Query)...)
 
-		oldMutation := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Mutation)
+		oldMutation := getOperationForName(oldSchemaDefs, ast.Mutation)
 		changes = append(changes, changesInSchemaOperation(oldMutation, nil, ast.Mutation)...)
 
-		oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
+		oldSubscription := getOperationForName(oldSchemaDefs, ast.Subscription)
 		changes = append(changes, changesInSchemaOperation(oldSubscription, nil, ast.Subscription)...)
 		return changes
 	}
 	if len(oldSchemaDefs) == 0 && len(newSchemaDefs) > 0 {
-		newQuery := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Query)
+		newQuery := getOperationForName(newSchemaDefs, ast.Query)
 		changes = append(changes, changesInSchemaOperation(nil, newQuery, ast.Query)...)
 
-		newMutation := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Mutation)
+		newMutation := getOperationForName(newSchemaDefs, ast.Mutation)
 		changes = append(changes, changesInSchemaOperation(nil, newMutation, ast.Mutation)...)
 
-		newSubscription := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Subscription)
+		newSubscription := getOperationForName(newSchemaDefs, ast.Subscription)
 		changes = append(changes, changesInSchemaOperation(nil, newSubscription, ast.Subscription)...)
 		return changes
 	}
 
-	oldQuery := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Query)
-	newQuery := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Query)
+	oldQuery := getOperationForName(oldSchemaDefs, ast.Query)
+	newQuery := getOperationForName(newSchemaDefs, ast.Query)
 	changes = append(changes, changesInSchemaOperation(oldQuery, newQuery, ast.Query)...)
 
-	oldMutation := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Mutation)
-	newMutation := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Mutation)
+	oldMutation := getOperationForName(oldSchemaDefs, ast.Mutation)
+	newMutation := getOperationForName(newSchemaDefs, ast.Mutation)
 	changes = append(changes, changesInSchemaOperation(oldMutation, newMutation, ast.Mutation)...)
 
-	oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
-	newSubscription := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Subscription)
+	oldSubscription := getOperationForName(oldSchemaDefs, ast.Subscription)
+	newSubscription := getOperationForName(newSchemaDefs, ast.Subscription)
 	changes = append(changes, changesInSchemaOperation(oldSubscription, newSubscription, ast.Subscription)...)
 
 	return changes
@@ -1321,10 +1321,12 @@ func isWrappingType(typ *ast.Type) bool {
 	return isListType(typ) || isNonNullType(typ)
 }
 
-func getOperationForName(ops ast.OperationTypeDefinitionList, name ast.Operation) *ast.OperationTypeDefinition {
-	for _, op := range ops {
-		if op.Operation == name {
-			return op
+func getOperationForName(schemaDefs ast.SchemaDefinitionList, name ast.Operation) *ast.OperationTypeDefinition {
+	for _, schemaDef := range schemaDefs {
+		for _, op := range schemaDef.OperationTypes {
+			if op.Operation == name {
+				return op
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From f08782e0c7205eca096ee5687591dbfb9607850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 08/11] fix: name the root operation types in schema changes

The message printed the operation in place of its type, e.g. "Schema query
root has changed from 'query' to 'query'".
---
 pkg/compare/compare.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index dc79540..67acde8 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -251,7 +251,7 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 		changes = append(changes, &Change{
 			changeType:       changeType,
 			criticalityLevel: NonBreaking,
-			message:          fmt.Sprintf("Schema %s root has added '%s'", op, newOp.Operation),
+			message:          fmt.Sprintf("Schema %s root has added '%s'", op, newOp.Type),
 			position:         newOp.Position,
 		})
 	}
@@ -259,7 +259,7 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 		changes = append(changes, &Change{
 			changeType:       changeType,
 			criticalityLevel: Breaking,
-			message:          fmt.Sprintf("Schema %s root has removed '%s'", op, oldOp.Operation),
+			message:          fmt.Sprintf("Schema %s root has removed '%s'", op, oldOp.Type),
 			position:         oldOp.Position,
 		})
 	}
@@ -267,7 +267,7 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 		changes = append(changes, &Change{
 			changeType:       changeType,
 			criticalityLevel: Breaking,
-			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Operation, newOp.Operation),
+			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Type, newOp.Type),
 			position:         newOp.Position,
 		})
 	}
-- 
2.43.0


From ab1af5563307d76e75e16a05fe4b9290013924c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 09/11] fix: lint files in a fixed order

---
 cmd/linter/lint_cmd.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/linter/lint_cmd.go b/cmd/linter/lint_cmd.go
index ae510b2..8a976b3 100644
--- a/cmd/linter/lint_cmd.go
+++ b/cmd/linter/lint_cmd.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sort"
 	"strings"
 
 	"github.com/CrowdStrike/gql/pkg/linter"
@@ -63,8 +64,13 @@ func NewLintCmd() *cobra.Command {
 func FindLintErrors(schemaFileContents map[string][]byte, rulesToApply []linter.LintRuleFunc) int {
 	exitStatus := 0
 	errorCount := 0
-	for filename, schemaFileContent := range schemaFileContents {
-		if lintErrors := Lint(filename, string(schemaFileContent), rulesToApply); len(lintErrors) != 0 {
+	filenames := make([]string, 0, len(schemaFileContents))
+	for filename := range schemaFileContents {
+		filenames = append(filenames, filename)
+	}
+	sort.Strings(filenames) // the iteration order of a map is random
+	for _, filename := range filenames {
+		if lintErrors := Lint(filename, string(schemaFileContents[filename]), rulesToApply); len(lintErrors) != 0 {
 			errorCount += len(lintErrors)
 			errorPresenter(filename, lintErrors)
 			exitStatus |= 1 // If there's error for any file, exit code should be 1
-- 
2.43.0


From c0605555d897d5314d64bcc60a6e353949108e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 10/11] fix: parse schema files in a fixed order

---
 utils/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/util.go b/utils/util.go
index 264ea87..319f1ab 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sort"
 
 	"github.com/vektah/gqlparser/v2/ast"
 	"github.com/vektah/gqlparser/v2/parser"
@@ -13,10 +14,15 @@ import (
 // ParseSchema parse schema files and combine their sources
 func ParseSchema(schemaFileContents map[string][]byte) (*ast.SchemaDocument, error) {
 	var sources []*ast.Source
-	for fn, sf := range schemaFileContents {
+	filenames := make([]string, 0, len(schemaFileContents))
+	for fn := range schemaFileContents {
+		filenames = append(filenames, fn)
+	}
+	sort.Strings(filenames) // the iteration order of a map is random
+	for _, fn := range filenames {
 		s := &ast.Source{
 			Name:  fn,
-			Input: string(sf),
+			Input: string(schemaFileContents[fn]),
 		}
 		sources = append(sources, s)
 	}
-- 
2.43.0


From 7076e3bfe9f1b704c01dff6eb3d91062cc7b35c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 11/11] fix: the notice about an empty schema file ran into the
 line printed after it

---
 utils/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/util.go b/utils/util.go
index 319f1ab..2ca62c9 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -55,7 +55,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
 		if len(content) == 0 {
-			fmt.Printf("empty file=%s in path=%s", filename, schemaFilePath)
+			fmt.Printf("empty file=%s in path=%s\n", filename, schemaFilePath)
 		}
 		schemaFileContents[filename] = content
 	}
-- 
2.43.0

