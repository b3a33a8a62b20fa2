From 03d8120833f437d7112306989dc47a5e5546e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:46 +0000
Subject: [PATCH 01/34] fix: report missing root resources and locator targets
 instead of crashing

---
 pkg/language/checks.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/language/checks.go b/pkg/language/checks.go
index 28c71b3..72a9837 100644
--- a/pkg/language/checks.go
+++ b/pkg/language/checks.go
@@ -590,7 +590,11 @@ func (r *Reader) checkResponseParameter(method *concepts.Method, name *names.Nam
 }
 
 func (r *Reader) checkLocatorLoops(version *concepts.Version) {
-	for _, locator := range version.Root().Locators() {
+	root := version.Root()
+	if root == nil {
+		return
+	}
+	for _, locator := range root.Locators() {
 		path := []*concepts.Locator{locator}
 		r.checkLocatorPathLoops(path)
 	}
@@ -601,6 +605,9 @@ func (r *Reader) checkLocatorPathLoops(path []*concepts.Locator) {
 	// the last locator. If there is such locator then there is a loop and we should not
 	// continue checking this path.
 	last := len(path) - 1
+	if path[last].Target() == nil {
+		return
+	}
 	first := -1
 	for i := last; i >= 0; i-- {
 		if path[i].Owner() == path[last].Target() {
-- 
2.43.0


From 02201f5c1bc839317dbf78ff10519e362170f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:18 +0000
Subject: [PATCH 02/34] fix: don't crash when a documentation comment starts
 with a blank line

---
 pkg/language/reader.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 2972465..c0b53b6 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -1087,13 +1087,19 @@ func (r *Reader) getDoc(token antlr.Token) string {
 		}
 	}
 
-	// Remove from all lines the number of leading spaces of the first line:
-	if len(lines) > 0 {
-		first := lines[0]
-		index := strings.IndexFunc(first, func(r rune) bool {
+	// Remove from all lines the number of leading spaces of the first line that isn't blank:
+	var first, prefix string
+	for _, line := range lines {
+		index := strings.IndexFunc(line, func(r rune) bool {
 			return !unicode.IsSpace(r)
 		})
-		prefix := first[0:index]
+		if index >= 0 {
+			first = line
+			prefix = line[0:index]
+			break
+		}
+	}
+	if prefix != "" {
 		for i, line := range lines {
 			if line != "" {
 				if strings.HasPrefix(line, prefix) {
-- 
2.43.0


From a4e622e9a379d0580fe3ce78e7cdc390a1a699bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:28 +0000
Subject: [PATCH 03/34] fix: sort errors by their actual name

---
 pkg/concepts/error.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/concepts/error.go b/pkg/concepts/error.go
index 502bc64..25d3863 100644
--- a/pkg/concepts/error.go
+++ b/pkg/concepts/error.go
@@ -27,7 +27,6 @@ type Error struct {
 	namedSupport
 
 	owner *Version
-	name  *names.Name
 	code  int
 }
 
-- 
2.43.0


From 3db33a99a93efebd353948c93bede2120fda6e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:38 +0000
Subject: [PATCH 04/34] fix: split names that start with a lower case word
 correctly

---
 pkg/names/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/names/parser.go b/pkg/names/parser.go
index 749883c..658e97d 100644
--- a/pkg/names/parser.go
+++ b/pkg/names/parser.go
@@ -110,7 +110,7 @@ func ParseUsingCase(text string) *Name {
 			}
 
 			// Anything else is a word by itself:
-			word := parseWord(text)
+			word := parseWord(current)
 			words = append(words, word)
 			i++
 		}
-- 
2.43.0


From 8e665464ce0de5b632d353e04c797c249b2c0ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:33 +0000
Subject: [PATCH 05/34] fix: detect undefined concepts separately for each
 version

---
 pkg/language/reader.go | 43 ++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index c0b53b6..9fc7967 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -54,9 +54,16 @@ type Reader struct {
 	version *concepts.Version
 
 	// Concepts that aren't completely defined yet:
-	undefinedTypes     map[string]*concepts.Type
-	undefinedResources map[string]*concepts.Resource
-	undefinedErrors    map[string]*concepts.Error
+	undefinedTypes     map[undefinedKey]*concepts.Type
+	undefinedResources map[undefinedKey]*concepts.Resource
+	undefinedErrors    map[undefinedKey]*concepts.Error
+}
+
+// undefinedKey identifies a concept that hasn't been defined yet. The version is part of the key
+// because the same name may be used in multiple versions.
+type undefinedKey struct {
+	version *concepts.Version
+	name    string
 }
 
 // NewReader creates an object that knows how to read  a model from a set of files. Typical usage is
@@ -107,9 +114,9 @@ func (r *Reader) Read() (model *concepts.Model, err error) {
 	r.model = concepts.NewModel()
 
 	// Initialize the indexes of undefined concepts:
-	r.undefinedTypes = make(map[string]*concepts.Type)
-	r.undefinedResources = make(map[string]*concepts.Resource)
-	r.undefinedErrors = make(map[string]*concepts.Error)
+	r.undefinedTypes = make(map[undefinedKey]*concepts.Type)
+	r.undefinedResources = make(map[undefinedKey]*concepts.Resource)
+	r.undefinedErrors = make(map[undefinedKey]*concepts.Error)
 
 	// Load the potentially partial representations of the model from the source files:
 	if r.inputs != nil {
@@ -476,9 +483,9 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	refReader.model = concepts.NewModel()
 
 	// Initialize the indexes of undefined concepts:
-	refReader.undefinedTypes = make(map[string]*concepts.Type)
-	refReader.undefinedResources = make(map[string]*concepts.Resource)
-	refReader.undefinedErrors = make(map[string]*concepts.Error)
+	refReader.undefinedTypes = make(map[undefinedKey]*concepts.Type)
+	refReader.undefinedResources = make(map[undefinedKey]*concepts.Resource)
+	refReader.undefinedErrors = make(map[undefinedKey]*concepts.Error)
 
 	// load the ad-hoc service and version referenced and find the correct type.
 	refReader.loadService(fmt.Sprintf("%s/%s", input, referencedServiceName))
@@ -1010,50 +1017,50 @@ func (r *Reader) ExitAnnotationParameter(ctx *AnnotationParameterContext) {
 }
 
 func (r *Reader) isUndefinedType(typ *concepts.Type) bool {
-	key := typ.Name().String()
+	key := undefinedKey{r.version, typ.Name().String()}
 	_, ok := r.undefinedTypes[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := undefinedKey{r.version, typ.Name().String()}
 	r.undefinedTypes[key] = typ
 }
 
 func (r *Reader) removeUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := undefinedKey{r.version, typ.Name().String()}
 	delete(r.undefinedTypes, key)
 }
 
 func (r *Reader) isUndefinedResource(resource *concepts.Resource) bool {
-	key := resource.Name().String()
+	key := undefinedKey{r.version, resource.Name().String()}
 	_, ok := r.undefinedResources[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedResource(resource *concepts.Resource) {
-	key := resource.Name().String()
+	key := undefinedKey{r.version, resource.Name().String()}
 	r.undefinedResources[key] = resource
 }
 
 func (r *Reader) removeUndefinedResource(typ *concepts.Resource) {
-	key := typ.Name().String()
+	key := undefinedKey{r.version, typ.Name().String()}
 	delete(r.undefinedResources, key)
 }
 
 func (r *Reader) isUndefinedError(err *concepts.Error) bool {
-	key := err.Name().String()
+	key := undefinedKey{r.version, err.Name().String()}
 	_, ok := r.undefinedErrors[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedError(err *concepts.Error) {
-	key := err.Name().String()
+	key := undefinedKey{r.version, err.Name().String()}
 	r.undefinedErrors[key] = err
 }
 
 func (r *Reader) removeUndefinedError(typ *concepts.Error) {
-	key := typ.Name().String()
+	key := undefinedKey{r.version, typ.Name().String()}
 	delete(r.undefinedErrors, key)
 }
 
-- 
2.43.0


From a5831dbc95ef7ccf3b860bc7e440f79e949fb898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:09 +0000
Subject: [PATCH 06/34] fix: reject model files that contain text after the
 last valid declaration

---
 pkg/language/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 9fc7967..374461c 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -341,6 +341,12 @@ func (r *Reader) loadFile(path string) {
 	parser.RemoveErrorListeners()
 	parser.AddErrorListener(listener)
 	tree := parser.File()
+	if token := parser.GetCurrentToken(); token.GetTokenType() != antlr.TokenEOF {
+		r.reporter.Errorf(
+			"Line %d, column %d: unexpected input '%s'",
+			token.GetLine(), token.GetColumn(), token.GetText(),
+		)
+	}
 	antlr.ParseTreeWalkerDefault.Walk(r, tree)
 }
 
-- 
2.43.0


From ebb8ce9864e4aa566874f2242284a32728fa661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:48 +0000
Subject: [PATCH 07/34] fix: don't crash when processing files that contain
 syntax errors

---
 pkg/language/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 374461c..f5d8a40 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -340,6 +340,7 @@ func (r *Reader) loadFile(path string) {
 	parser := NewModelParser(stream)
 	parser.RemoveErrorListeners()
 	parser.AddErrorListener(listener)
+	errors := r.reporter.Errors()
 	tree := parser.File()
 	if token := parser.GetCurrentToken(); token.GetTokenType() != antlr.TokenEOF {
 		r.reporter.Errorf(
@@ -347,6 +348,11 @@ func (r *Reader) loadFile(path string) {
 			token.GetLine(), token.GetColumn(), token.GetText(),
 		)
 	}
+
+	// If there were syntax errors then the tree may be incomplete, and it can't be processed:
+	if r.reporter.Errors() > errors {
+		return
+	}
 	antlr.ParseTreeWalkerDefault.Walk(r, tree)
 }
 
-- 
2.43.0


From d0daa71694cb3ec40e1d0df134e5419b19e96f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:43 +0000
Subject: [PATCH 08/34] fix: reject declarations that contain duplicated
 members

---
 pkg/language/checks.go | 45 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/pkg/language/checks.go b/pkg/language/checks.go
index 72a9837..85edd73 100644
--- a/pkg/language/checks.go
+++ b/pkg/language/checks.go
@@ -42,6 +42,11 @@ func (r *Reader) checkVersion(version *concepts.Version) {
 		r.reporter.Errorf("Version '%s' doesn't have a root resource", version)
 	}
 
+	// Check the types:
+	for _, typ := range version.Types() {
+		r.checkType(typ)
+	}
+
 	// Check the resources:
 	for _, resource := range version.Resources() {
 		r.checkResource(resource)
@@ -51,13 +56,53 @@ func (r *Reader) checkVersion(version *concepts.Version) {
 	r.checkLocatorLoops(version)
 }
 
+func (r *Reader) checkType(typ *concepts.Type) {
+	var members []names.Named
+	for _, attribute := range typ.Attributes() {
+		members = append(members, attribute)
+	}
+	r.checkUniqueNames("Attribute", members)
+	members = nil
+	for _, value := range typ.Values() {
+		members = append(members, value)
+	}
+	r.checkUniqueNames("Value", members)
+}
+
+// checkUniqueNames checks that there aren't multiple members with the same name.
+func (r *Reader) checkUniqueNames(kind string, members []names.Named) {
+	index := map[string]bool{}
+	for _, member := range members {
+		key := member.Name().String()
+		if index[key] {
+			r.reporter.Errorf("%s '%s' is already defined", kind, member)
+		}
+		index[key] = true
+	}
+}
+
 func (r *Reader) checkResource(resource *concepts.Resource) {
+	var members []names.Named
+	for _, method := range resource.Methods() {
+		members = append(members, method)
+	}
+	r.checkUniqueNames("Method", members)
+	members = nil
+	for _, locator := range resource.Locators() {
+		members = append(members, locator)
+	}
+	r.checkUniqueNames("Locator", members)
 	for _, method := range resource.Methods() {
 		r.checkMethod(method)
 	}
 }
 
 func (r *Reader) checkMethod(method *concepts.Method) {
+	var members []names.Named
+	for _, parameter := range method.Parameters() {
+		members = append(members, parameter)
+	}
+	r.checkUniqueNames("Parameter", members)
 	// Run specific checks according tot he type of method:
 	switch {
 	case method.IsAdd():
-- 
2.43.0


From a1bf72090c8534048ff81ab7822c699f2f401cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:53 +0000
Subject: [PATCH 09/34] fix: honour the value passed to the Link method of
 builders

---
 pkg/generators/golang/builders_generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 643d3d1..2fc7e84 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -242,7 +242,11 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 		{{ if .Type.IsClass }}
 			// Link sets the flag that indicates if this is a link.
 			func (b *{{ $builderName }}) Link(value bool) *{{ $builderName }} {
-				b.bitmap_ |= 1
+				if value {
+					b.bitmap_ |= 1
+				} else {
+					b.bitmap_ &^= 1
+				}
 				return b
 			}
 
-- 
2.43.0


From 7e1a364ed5305e94a5948cc486fd09b0edf61b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:03 +0000
Subject: [PATCH 10/34] fix: preserve empty maps when copying objects to
 builders

---
 pkg/generators/golang/builders_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 2fc7e84..1d60e0a 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -371,7 +371,7 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 						b.{{ $fieldName }} = nil
 					}
 				{{ else if .Type.IsMap }}
-					if len(object.{{ $fieldName }}) > 0 {
+					if object.{{ $fieldName }} != nil {
 						{{ if .Type.Element.IsScalar }}
 							b.{{ $fieldName }} = {{ $fieldType }}{}
 							for k, v := range object.{{ $fieldName }} {
-- 
2.43.0


From 1a664df347c3fad2603d60fde9141bef6f25be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:02 +0000
Subject: [PATCH 11/34] fix: generate correct code for map and interface
 parameters of methods

---
 pkg/generators/golang/clients_generator.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 994d78c..68d6456 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -819,7 +819,7 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
-				{{ if or .Type.IsStruct .Type.IsList }}
+				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap .Type.IsInterface }}
 					r.{{ $fieldName }} = value
 				{{ else }}
 					r.{{ $fieldName }} = &value
@@ -843,7 +843,11 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 				{{ $fieldName := fieldName . }}
 				{{ $parameterName := parameterName . }}
 				if r.{{ $fieldName }} != nil {
-					helpers.AddValue(&query, "{{ $parameterName }}", *r.{{ $fieldName }})
+					{{ if .Type.IsInterface }}
+						helpers.AddValue(&query, "{{ $parameterName }}", r.{{ $fieldName }})
+					{{ else }}
+						helpers.AddValue(&query, "{{ $parameterName }}", *r.{{ $fieldName }})
+					{{ end }}
 				}
 			{{ end }}
 			header := helpers.CopyHeader(r.header)
@@ -976,12 +980,12 @@ func (g *ClientsGenerator) generateResponseSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $responseName }}) {{ $getterName }}() {{ $getterType }} {
-				{{ if .Type.IsScalar }}
+				{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 					if r != nil && r.{{ $fieldName }} != nil {
 						return *r.{{ $fieldName }}
 					}
 					return {{ zeroValue .Type }}
-				{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap }}
+				{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap .Type.IsInterface }}
 					if r == nil {
 						return nil
 					}
@@ -996,9 +1000,9 @@ func (g *ClientsGenerator) generateResponseSource(method *concepts.Method) {
 			func (r *{{ $responseName }}) Get{{ $getterName }}() (value {{ $getterType }}, ok bool) {
 				ok = r != nil && r.{{ $fieldName }} != nil
 				if ok {
-					{{ if .Type.IsScalar }}
+					{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 						value = *r.{{ $fieldName }}
-					{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap }}
+					{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap .Type.IsInterface }}
 						value = r.{{ $fieldName }}
 					{{ end }}
 				}
-- 
2.43.0


From c72c4c0e75d942e2698b27deb539fd0af51a7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:11 +0000
Subject: [PATCH 12/34] fix: honour the JSON name of parameters in OpenAPI
 specifications

---
 pkg/generators/openapi/names_calculator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/names_calculator.go b/pkg/generators/openapi/names_calculator.go
index 00ad681..ae3a9c2 100644
--- a/pkg/generators/openapi/names_calculator.go
+++ b/pkg/generators/openapi/names_calculator.go
@@ -90,5 +90,9 @@ func (c *NamesCalculator) AttributePropertyName(attribute *concepts.Attribute) s
 
 // ParameterPropertyName calculates the property name for an parameter of a method.
 func (c *NamesCalculator) ParameterPropertyName(parameter *concepts.Parameter) string {
-	return parameter.Name().Snake()
+	name := annotations.JSONName(parameter)
+	if name == "" {
+		name = parameter.Name().Snake()
+	}
+	return name
 }
-- 
2.43.0


From c83faf636207d964ec058407d4c09d1c32b84d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:21 +0000
Subject: [PATCH 13/34] fix: don't return an error when the metadata response
 is empty

---
 pkg/generators/golang/clients_generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 68d6456..b80a4f0 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -378,6 +378,7 @@ func (g *ClientsGenerator) generateVersionMetadataClientSource(version *concepts
 			reader := bufio.NewReader(response.Body)
 			_, err = reader.Peek(1)
 			if err == io.EOF {
+				err = nil
 				return
 			}
 			if result.status >= 400 {
-- 
2.43.0


From 99c10fc435ca0cca0906890d628a1bc66903da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:28 +0000
Subject: [PATCH 14/34] fix: use the right package selector for links to types
 of referenced versions

---
 pkg/generators/golang/builders_generator.go | 4 ++--
 pkg/generators/golang/types_generator.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 1d60e0a..c525cfd 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -648,7 +648,7 @@ func (g *BuildersGenerator) fieldType(attribute *concepts.Attribute) *TypeRefere
 	var ref *TypeReference
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
@@ -716,7 +716,7 @@ func (g *BuildersGenerator) setterType(attribute *concepts.Attribute) *TypeRefer
 	var ref *TypeReference
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
diff --git a/pkg/generators/golang/types_generator.go b/pkg/generators/golang/types_generator.go
index 6307fb4..ad09537 100644
--- a/pkg/generators/golang/types_generator.go
+++ b/pkg/generators/golang/types_generator.go
@@ -608,7 +608,7 @@ func (g *TypesGenerator) getterType(attribute *concepts.Attribute) *TypeReferenc
 	typ := attribute.Type()
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
@@ -671,7 +671,7 @@ func (g *TypesGenerator) fieldType(attribute *concepts.Attribute) *TypeReference
 	typ := attribute.Type()
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
-- 
2.43.0


From 64a85f1fa9a71fe63939841976900e27aaaa5a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:46 +0000
Subject: [PATCH 15/34] fix: report incorrect references and handle nested and
 recursive ones

---
 pkg/language/reader.go | 71 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 11 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index f5d8a40..ed1c3fd 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -48,6 +48,9 @@ type Reader struct {
 	// Paths of the files and directories to load.
 	inputs []string
 
+	// References that are being processed, used to detect loops:
+	references []string
+
 	// The model, service and version that are currently being loaded:
 	model   *concepts.Model
 	service *concepts.Service
@@ -479,42 +482,88 @@ func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
 }
 
 func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
-	if len(r.inputs) > 1 {
-		panic("referenced service with multiple inputs in undefined")
+	if len(r.inputs) != 1 {
+		r.reporter.Errorf(
+			"Type '%s' references '%s', but references aren't supported when there "+
+				"are multiple inputs",
+			typ.Name(), path,
+		)
+		return
 	}
 	input := r.inputs[0]
 	path = strings.TrimPrefix(path, "/")
 	components := strings.Split(path, "/")
+	if len(components) != 3 {
+		r.reporter.Errorf(
+			"Type '%s' references '%s', but references should contain the names of a "+
+				"service, a version and a type",
+			typ.Name(), path,
+		)
+		return
+	}
 	referencedServiceName := components[0]
 	referencedVersion := components[1]
 	referencedTypeName := components[2]
 
+	// The referenced version may itself contain references, so we need to stop if this one is
+	// already being processed:
+	for _, reference := range r.references {
+		if reference == path {
+			r.reporter.Errorf("Reference '%s' is part of a loop", path)
+			return
+		}
+	}
+
 	// Create an ad-hoc reader and model for the specific referenced service.
 	refReader := NewReader().
-		Reporter(r.reporter)
+		Reporter(r.reporter).
+		Inputs(r.inputs)
+	refReader.references = append(refReader.references, r.references...)
+	refReader.references = append(refReader.references, path)
 	refReader.model = concepts.NewModel()
+	refReader.service = concepts.NewService()
+	refReader.service.SetName(names.ParseUsingSeparator(referencedServiceName, "_"))
+	refReader.model.AddService(refReader.service)
 
 	// Initialize the indexes of undefined concepts:
 	refReader.undefinedTypes = make(map[undefinedKey]*concepts.Type)
 	refReader.undefinedResources = make(map[undefinedKey]*concepts.Resource)
 	refReader.undefinedErrors = make(map[undefinedKey]*concepts.Error)
 
+	// The text of the comments is kept in a global variable, and it will be replaced when the
+	// files of the referenced version are loaded:
+	savedComments := comments
+	defer func() {
+		comments = savedComments
+	}()
+
 	// load the ad-hoc service and version referenced and find the correct type.
-	refReader.loadService(fmt.Sprintf("%s/%s", input, referencedServiceName))
-	refVersion := refReader.service.FindVersion(names.ParseUsingSeparator(referencedVersion, "_"))
+	refReader.loadVersion(filepath.Join(input, referencedServiceName, referencedVersion))
+	refVersion := refReader.version
+	if refVersion == nil {
+		return
+	}
+
 	// Once loading the service, we find the reference type
 	// then recursively iterate the type tree and add the types to the current version.
-	if referencedType := refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_")); referencedType != nil {
-		r.recursivelyAddTypeToVersion(typ, referencedType)
+	referencedType := refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_"))
+	if referencedType == nil {
+		r.reporter.Errorf(
+			"Type '%s' references '%s', but that type doesn't exist",
+			typ.Name(), path,
+		)
+		return
 	}
+	r.recursivelyAddTypeToVersion(typ, referencedType, map[*concepts.Type]bool{})
 }
 
 // A helper function to recursively add types to a version
 func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
-	referencedType *concepts.Type) {
-	if referencedType.IsBasicType() {
+	referencedType *concepts.Type, visited map[*concepts.Type]bool) {
+	if referencedType.IsBasicType() || visited[referencedType] {
 		return
 	}
+	visited[referencedType] = true
 	for _, attribute := range referencedType.Attributes() {
 		// If attribute is explicitDeclared, it needs to change it's owner to be the same as currType
 		if attribute.Link() {
@@ -538,9 +587,9 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 			attribute.SetLinkOwner(attribute.Type().Owner())
 		} else if attribute.Type().IsList() || attribute.Type().IsMap() {
 			r.version.AddType(attribute.Type())
-			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element())
+			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element(), visited)
 		} else {
-			r.recursivelyAddTypeToVersion(currType, attribute.Type())
+			r.recursivelyAddTypeToVersion(currType, attribute.Type(), visited)
 		}
 	}
 
-- 
2.43.0


From 1b5c4a16ee0252a610d52d7054e91759c6711418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:57 +0000
Subject: [PATCH 16/34] fix: generate correct imports for services that have
 multiple versions

---
 pkg/generators/golang/clients_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index b80a4f0..fe48f0c 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -222,7 +222,7 @@ func (g *ClientsGenerator) generateServiceClientSource(service *concepts.Service
 	g.buffer.Import("net/http", "")
 	g.buffer.Import("path", "")
 	for _, version := range service.Versions() {
-		g.buffer.Import(g.packages.VersionImport(version), "")
+		g.buffer.Import(g.packages.VersionImport(version), g.packages.VersionSelector(version))
 	}
 	g.buffer.Emit(`
 		// Client is the client for service '{{ .Service.Name }}'.
-- 
2.43.0


From 4e243d3ecdb9fc7f9cd3fa04cb151f5bbc4a0a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:44 +0000
Subject: [PATCH 17/34] fix: don't stop reading maps when there is an empty key

---
 pkg/generators/golang/json_generator.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 66fac4b..60d73cf 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1376,14 +1376,11 @@ func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.
 			{{ end }}
 		{{ else if .Type.IsMap }}
 			{{ .Variable }} := {{ valueReference .Type }}{}
-			for {
-				key := iterator.ReadObject()
-				if key == "" {
-					break
-				}
+			iterator.ReadMapCB(func(iterator *jsoniter.Iterator, key string) bool {
 				{{ generateReadValue "item" .Type.Element false .LinkOwner }}
 				{{ .Variable }}[key] = item
-			}
+				return true
+			})
 		{{ else }}
 			iterator.ReadAny()
 		{{ end }}
-- 
2.43.0


From e3d0ef6d41f52db33bd4fc1ede2a88acfe096332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 18/34] fix: accept nil timestamps in errors

---
 pkg/generators/golang/errors_generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index a88ecaf..a902af1 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -269,7 +269,11 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 		// Timestamp sets the moment when it happened.
 		func (b *ErrorBuilder) Timestamp(value *time.Time) *ErrorBuilder {
 			b.timestamp = value
-			b.bitmap_ |= 128
+			if value != nil {
+				b.bitmap_ |= 128
+			} else {
+				b.bitmap_ &^= 128
+			}
 			return b
 		}
 
-- 
2.43.0


From 942122d7671661994a3b7458dad1022590577330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:55 +0000
Subject: [PATCH 19/34] fix: put metadata and methods of the root resource in
 the same OpenAPI path

---
 pkg/generators/openapi/openapi_generator.go | 25 +++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index 998552e..6d89cd3 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -233,10 +233,7 @@ func (g *OpenAPIGenerator) generatePaths(version *concepts.Version) {
 	// Generate the specification:
 	g.buffer.StartObject("paths")
 
-	// Add the metadata path:
-	g.generateMetadataPath(version)
-
-	// Add the path for the root resource:
+	// Add the path for the root resource, which is also the path of the metadata:
 	empty := []*concepts.Locator{}
 	root := g.absolutePath(version, empty)
 	g.generateResourcePaths(root, empty, version.Root())
@@ -251,8 +248,7 @@ func (g *OpenAPIGenerator) generatePaths(version *concepts.Version) {
 	g.buffer.EndObject()
 }
 
-func (g *OpenAPIGenerator) generateMetadataPath(version *concepts.Version) {
-	g.buffer.StartObject(g.absolutePath(version, nil))
+func (g *OpenAPIGenerator) generateMetadataMethod() {
 	g.buffer.StartObject("get")
 	g.generateDescription("Retrieves the version metadata.")
 	g.buffer.StartObject("responses")
@@ -278,7 +274,6 @@ func (g *OpenAPIGenerator) generateMetadataPath(version *concepts.Version) {
 	g.buffer.EndObject()
 	g.buffer.EndObject()
 	g.buffer.EndObject()
-	g.buffer.EndObject()
 }
 
 func (g *OpenAPIGenerator) generateResourcePaths(prefix string,
@@ -296,9 +291,21 @@ func (g *OpenAPIGenerator) generateResourcePaths(prefix string,
 		}
 	}
 
-	// Methods that don't have their own URL segment share the same path object:
-	if len(without) > 0 {
+	// Methods that don't have their own URL segment share the same path object. In the case of the
+	// root resource that is also the path of the metadata, which is retrieved with the GET method
+	// unless the model uses it for something else:
+	root := len(path) == 0
+	if len(without) > 0 || root {
 		g.buffer.StartObject(prefix)
+		metadata := root
+		for _, method := range without {
+			if g.binding.Method(method) == "GET" {
+				metadata = false
+			}
+		}
+		if metadata {
+			g.generateMetadataMethod()
+		}
 		for _, method := range without {
 			g.generateMethod(path, method)
 		}
-- 
2.43.0


From ecfa47101c39e7cbcfcde0bb7df0820d25122f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:37 +0000
Subject: [PATCH 20/34] fix: don't use trailing comments as documentation of
 the next line

---
 pkg/language/ModelLexer.g4  | 4 +++-
 pkg/language/model_lexer.go | 4 +++-
 pkg/language/reader.go      | 8 ++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/language/ModelLexer.g4 b/pkg/language/ModelLexer.g4
index b9f343e..020c659 100644
--- a/pkg/language/ModelLexer.g4
+++ b/pkg/language/ModelLexer.g4
@@ -22,7 +22,9 @@ options {
 
 @members {
   func (l *ModelLexer) comment() {
-    comments[l.GetLine()] = l.GetText()
+    start := l.TokenStartCharIndex
+    before := l.GetInputStream().GetText(start-l.TokenStartColumn, start-1)
+    addComment(l.GetLine(), before, l.GetText())
   }
 }
 
diff --git a/pkg/language/model_lexer.go b/pkg/language/model_lexer.go
index 763618d..1bae738 100644
--- a/pkg/language/model_lexer.go
+++ b/pkg/language/model_lexer.go
@@ -240,7 +240,9 @@ const (
 )
 
 func (l *ModelLexer) comment() {
-	comments[l.GetLine()] = l.GetText()
+	start := l.TokenStartCharIndex
+	before := l.GetInputStream().GetText(start-l.TokenStartColumn, start-1)
+	addComment(l.GetLine(), before, l.GetText())
 }
 
 func (l *ModelLexer) Action(localctx antlr.RuleContext, ruleIndex, actionIndex int) {
diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index ed1c3fd..1846a79 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -1128,6 +1128,14 @@ func (r *Reader) removeUndefinedError(typ *concepts.Error) {
 // comments stores the line comments that haven't yet been converted into documentation comments:
 var comments map[int]string
 
+// addComment stores the comment found in the given line. Comments that appear after other text of
+// the same line are ignored, because they don't document what comes in the next line.
+func addComment(line int, before, text string) {
+	if strings.TrimSpace(before) == "" {
+		comments[line] = text
+	}
+}
+
 // getDoc tries to extract the documentation comment that may appear before the given token.
 func (r *Reader) getDoc(token antlr.Token) string {
 	// Get all the consecutive comments that are right before the token:
-- 
2.43.0


From 620db9f966b6d294abf96cd24d5748e11cafb62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:06 +0000
Subject: [PATCH 21/34] fix: process references when the complete version has
 been loaded

---
 pkg/generators/golang/types_calculator.go |   4 +-
 pkg/language/reader.go                    | 129 ++++++++++++++--------
 2 files changed, 82 insertions(+), 51 deletions(-)

diff --git a/pkg/generators/golang/types_calculator.go b/pkg/generators/golang/types_calculator.go
index 1e11bac..2cdaf19 100644
--- a/pkg/generators/golang/types_calculator.go
+++ b/pkg/generators/golang/types_calculator.go
@@ -285,7 +285,7 @@ func (c *TypesCalculator) ListReference(typ *concepts.Type) *TypeReference {
 	// Calculate the type reference:
 	element := typ.Element()
 	ref := &TypeReference{}
-	ref.imprt, ref.selector = c.Package(element)
+	ref.imprt, ref.selector = c.Package(typ)
 	ref.name = annotations.GoName(element)
 	if ref.name == "" {
 		ref.name = c.names.Public(element.Name())
@@ -382,7 +382,7 @@ func (c *TypesCalculator) BuilderReference(typ *concepts.Type, refVersion string
 	case typ.IsList():
 		element := typ.Element()
 		ref = &TypeReference{}
-		ref.imprt, ref.selector = c.Package(element)
+		ref.imprt, ref.selector = c.Package(typ)
 		ref.name = annotations.GoName(element)
 		if ref.name == "" {
 			ref.name = c.names.Public(element.Name())
diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 1846a79..dce287f 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -60,6 +60,11 @@ type Reader struct {
 	undefinedTypes     map[undefinedKey]*concepts.Type
 	undefinedResources map[undefinedKey]*concepts.Resource
 	undefinedErrors    map[undefinedKey]*concepts.Error
+
+	// References of the version that is being loaded, and names of the types that have already
+	// been imported because of them:
+	pendingReferences []pendingReference
+	importedTypes     map[string]bool
 }
 
 // undefinedKey identifies a concept that hasn't been defined yet. The version is part of the key
@@ -69,6 +74,12 @@ type undefinedKey struct {
 	name    string
 }
 
+// pendingReference is a reference to a type of another version that hasn't been processed yet.
+type pendingReference struct {
+	typ  *concepts.Type
+	path string
+}
+
 // NewReader creates an object that knows how to read  a model from a set of files. Typical usage is
 // to create the object, configure it and then call the Read method. For example, to read a model
 // from the files contained in the 'mydir' directory, do the following:
@@ -308,6 +319,15 @@ func (r *Reader) loadVersion(dir string) {
 			)
 		}
 	}
+
+	// Process the references. This needs to be done when all the files have been loaded because
+	// the result depends on the rest of types declared in the version.
+	references := r.pendingReferences
+	r.pendingReferences = nil
+	r.importedTypes = map[string]bool{}
+	for _, reference := range references {
+		r.handleClassRef(reference.typ, reference.path)
+	}
 }
 
 func (r *Reader) loadFile(path string) {
@@ -455,29 +475,7 @@ func (r *Reader) ExitClassDecl(ctx *ClassDeclContext) {
 	if path := annotations.ReferencePath(typ); path != "" {
 		// If the type has a reference set ExplicitDeclared
 		typ.SetExplicitDeclared(true)
-		r.removeLinkedAttributes(typ)
-		r.handleClassRef(typ, path)
-	}
-}
-
-func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
-	for _, types := range r.version.Types() {
-		for _, attribute := range types.Attributes() {
-			// It could be that the type is already in an attribute of the service
-			// It needs to add the SetExplicitDeclared to it. {
-			if attribute.Type().Name() == typ.Name() {
-				attribute.SetLinkOwner(nil)
-				attribute.Type().SetExplicitDeclared(true)
-			}
-			if attribute.Type().IsList() || attribute.Type().IsMap() {
-				if attribute.Type().Element().Name().String() == typ.Name().String() {
-					attribute.SetLinkOwner(nil)
-					attribute.Type().SetExplicitDeclared(true)
-					attribute.Type().Element().SetExplicitDeclared(true)
-					attribute.Type().Element().SetOwner(typ.Owner())
-				}
-			}
-		}
+		r.pendingReferences = append(r.pendingReferences, pendingReference{typ, path})
 	}
 }
 
@@ -554,51 +552,84 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 		)
 		return
 	}
-	r.recursivelyAddTypeToVersion(typ, referencedType, map[*concepts.Type]bool{})
+	r.recursivelyAddTypeToVersion(refVersion, referencedType, map[*concepts.Type]bool{})
 }
 
 // A helper function to recursively add types to a version
-func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
+func (r *Reader) recursivelyAddTypeToVersion(refVersion *concepts.Version,
 	referencedType *concepts.Type, visited map[*concepts.Type]bool) {
+	// If the referenced version has itself references then the types of the attributes may be
+	// the ones that existed before processing them:
+	if found := refVersion.FindType(referencedType.Name()); found != nil {
+		referencedType = found
+	}
 	if referencedType.IsBasicType() || visited[referencedType] {
 		return
 	}
 	visited[referencedType] = true
 	for _, attribute := range referencedType.Attributes() {
-		// If attribute is explicitDeclared, it needs to change it's owner to be the same as currType
-		if attribute.Link() {
-			// If the attribute is a Link set the LinkOwner
-			// to the attribute type Owner, if it is also a list it should change the owner of the
-			// element type
-			existingAttType := r.version.FindType(attribute.Type().Name())
-			if existingAttType != nil && existingAttType.ExplicitDeclared() {
-				attribute.Type().SetOwner(r.version)
-				// Stop the iteration over the attributes of this type
-				continue
-			} else if attribute.Type().IsList() || attribute.Type().IsMap() {
-				existingAttType = r.version.FindType(attribute.Type().Element().Name())
-				if existingAttType != nil && existingAttType.ExplicitDeclared() {
-					attribute.Type().SetOwner(r.version)
-					attribute.Type().Element().SetOwner(r.version)
-					continue
-				}
+		attributeType := attribute.Type()
+		isContainer := attributeType.IsList() || attributeType.IsMap()
+		targetType := attributeType
+		if isContainer {
+			targetType = attributeType.Element()
+		}
+		if !attribute.Link() {
+			attribute.SetType(r.typeWithOwner(attributeType, r.version))
+			if isContainer {
+				r.version.AddType(attribute.Type())
 			}
-			// Otherwise add the setLinkOwner to the attribute
-			attribute.SetLinkOwner(attribute.Type().Owner())
-		} else if attribute.Type().IsList() || attribute.Type().IsMap() {
-			r.version.AddType(attribute.Type())
-			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element(), visited)
+			r.recursivelyAddTypeToVersion(refVersion, targetType, visited)
+			continue
+		}
+		existingType := r.version.FindType(targetType.Name())
+		if existingType != nil && existingType.ExplicitDeclared() {
+			// The target of the link is explicitly declared in this version, so it needs
+			// to change the owner:
+			attribute.SetType(r.typeWithOwner(attributeType, r.version))
+			attribute.SetLinkOwner(nil)
 		} else {
-			r.recursivelyAddTypeToVersion(currType, attribute.Type(), visited)
+			// Otherwise the link stays in the referenced version:
+			if attribute.LinkOwner() == nil {
+				attribute.SetLinkOwner(refVersion)
+			}
+			linkedType := *attributeType
+			linkedType.SetOwner(attribute.LinkOwner())
+			attribute.SetType(&linkedType)
 		}
 	}
 
 	existingType := r.version.FindType(referencedType.Name())
-	if existingType != nil && existingType.ExplicitDeclared() {
+	referencedType.SetExplicitDeclared(false)
+	switch {
+	case existingType == nil:
+	case existingType.ExplicitDeclared():
 		referencedType.SetExplicitDeclared(true)
+	case r.importedTypes[referencedType.Name().String()]:
+	case r.isUndefinedType(existingType):
+		existingType.SetKind(referencedType.Kind())
+		r.removeUndefinedType(existingType)
+	default:
+		r.reporter.Errorf("Type '%s' is already defined", referencedType.Name())
+		return
 	}
+	r.importedTypes[referencedType.Name().String()] = true
 	r.version.AddType(referencedType)
+}
 
+// typeWithOwner returns a copy of the given type, and of its element if it has it, with the given owner.
+// It is used for the types of attributes, because the same type can also be used by links that have
+// other owners. Basic types aren't copied.
+func (r *Reader) typeWithOwner(typ *concepts.Type, owner *concepts.Version) *concepts.Type {
+	if typ.IsBasicType() {
+		return typ
+	}
+	result := *typ
+	result.SetOwner(owner)
+	if result.IsList() || result.IsMap() {
+		result.SetElement(r.typeWithOwner(result.Element(), owner))
+	}
+	return &result
 }
 
 func (r *Reader) ExitStructDecl(ctx *StructDeclContext) {
-- 
2.43.0


From eca848d12accbdef95450d5b5d1436b60c1a1885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:22 +0000
Subject: [PATCH 22/34] fix: keep all the paths of resources that have multiple
 variable locators

---
 pkg/generators/golang/metrics_generator.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/metrics_generator.go b/pkg/generators/golang/metrics_generator.go
index ec78738..58a75e3 100644
--- a/pkg/generators/golang/metrics_generator.go
+++ b/pkg/generators/golang/metrics_generator.go
@@ -215,7 +215,24 @@ func (g *MetricsSupportGenerator) resourceBranch(resource *concepts.Resource) in
 			locatorLabel = "-"
 		}
 		locatorBranch := g.resourceBranch(locator.Target())
-		branch[locatorLabel] = locatorBranch
+		branch[locatorLabel] = g.mergeBranches(branch[locatorLabel], locatorBranch)
 	}
 	return branch
 }
+
+// mergeBranches merges two branches that have the same label, which happens when a resource has
+// multiple variable locators.
+func (g *MetricsSupportGenerator) mergeBranches(first, second interface{}) interface{} {
+	firstBranch, ok := first.(map[string]interface{})
+	if !ok {
+		return second
+	}
+	secondBranch, ok := second.(map[string]interface{})
+	if !ok {
+		return first
+	}
+	for label, branch := range secondBranch {
+		firstBranch[label] = g.mergeBranches(firstBranch[label], branch)
+	}
+	return firstBranch
+}
-- 
2.43.0


From 8f93a4369b0f2f0f1d50527bbaaf14eaca51d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:25 +0000
Subject: [PATCH 23/34] fix: generate valid bit mask for the attribute that
 uses the last bit

---
 pkg/generators/golang/types_calculator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/types_calculator.go b/pkg/generators/golang/types_calculator.go
index 2cdaf19..d2d64f2 100644
--- a/pkg/generators/golang/types_calculator.go
+++ b/pkg/generators/golang/types_calculator.go
@@ -484,7 +484,7 @@ func (c *TypesCalculator) BitMask(attribute *concepts.Attribute) string {
 	}
 
 	// Calculate the mask:
-	mask := 1 << index
+	mask := uint64(1) << index
 	return fmt.Sprintf("%d", mask)
 }
 
-- 
2.43.0


From 1743dbb03b8a670aaa27eb9a65141e13b21b191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:34 +0000
Subject: [PATCH 24/34] fix: generate valid code for structs that don't have
 attributes

---
 pkg/generators/golang/json_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 60d73cf..c975b11 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -605,7 +605,9 @@ func (g *JSONSupportGenerator) generateStructTypeSource(typ *concepts.Type) {
 
 		// {{ $writeTypeFunc }} writes a value of the '{{ .Type.Name }}' type to the given stream.
 		func {{ $writeTypeFunc }}(object *{{ $structName }}, stream *jsoniter.Stream) {
-			count := 0
+			{{ if or .Type.IsClass .Type.Attributes }}
+				count := 0
+			{{ end }}
 			stream.WriteObjectStart()
 			{{ if .Type.IsClass }}
 				stream.WriteObjectField("kind")
-- 
2.43.0


From 1969717347a7404cb6a4d6c52d0b4547eb183a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:28 +0000
Subject: [PATCH 25/34] fix: import explicitly all the packages used by the
 errors package

---
 pkg/generators/golang/errors_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index a902af1..75c866c 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -174,10 +174,12 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 	// Generate the code:
 	g.buffer.Import("fmt", "")
 	g.buffer.Import("io", "")
+	g.buffer.Import("net/http", "")
+	g.buffer.Import("strconv", "")
 	g.buffer.Import("strings", "")
 	g.buffer.Import("time", "")
 	g.buffer.Import("github.com/golang/glog", "")
-	g.buffer.Import("github.com/openshift-online/ocm-api-metamodel/pkg/runtime", "")
+	g.buffer.Import("github.com/json-iterator/go", "jsoniter")
 	g.buffer.Import(g.packages.HelpersImport(), "")
 	g.buffer.Emit(`
 		// Error kind is the name of the type used to represent errors.
-- 
2.43.0


From 473612bf4d3d68ec6c231d8c3c55175b94fbb446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:30 +0000
Subject: [PATCH 26/34] fix: reading JSON stopped at fields with empty name and
 accepted misplaced braces

---
 pkg/generators/golang/errors_generator.go |  9 ++--
 pkg/generators/golang/json_generator.go   | 62 +++++++++--------------
 2 files changed, 27 insertions(+), 44 deletions(-)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index 75c866c..7d845ec 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -534,11 +534,7 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 
 		func readError(iterator *jsoniter.Iterator) *Error {
 			object := &Error{}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				case "status":
 					object.status = iterator.ReadInt()
@@ -572,7 +568,8 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return object
 		}
 
diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index c975b11..396f0be 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -510,11 +510,7 @@ func (g *JSONSupportGenerator) generateVersionMetadataSource(version *concepts.V
 
 		func readMetadata(iterator *jsoniter.Iterator) *Metadata {
 			object := &Metadata{}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				case "server_version":
 					object.serverVersion = iterator.ReadString()
@@ -522,7 +518,8 @@ func (g *JSONSupportGenerator) generateVersionMetadataSource(version *concepts.V
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return object
 		}
 		`,
@@ -678,11 +675,7 @@ func (g *JSONSupportGenerator) generateStructTypeSource(typ *concepts.Type) {
 		// {{ $readTypeFunc }} reads a value of the '{{ .Type.Name }}' type from the given iterator.
 		func {{ $readTypeFunc }}(iterator *jsoniter.Iterator) *{{ $structName }} {
 			object := &{{ $structName }}{}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				{{ if .Type.IsClass }}
 					case "kind":
@@ -709,7 +702,8 @@ func (g *JSONSupportGenerator) generateStructTypeSource(typ *concepts.Type) {
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return object
 		}
 		`,
@@ -818,10 +812,11 @@ func (g *JSONSupportGenerator) generateListTypeSource(
 		// the given iterator.
 		func {{ $readTypeFunc }}(iterator *jsoniter.Iterator) {{ $sliceType }} {
 			list := {{ valueReference .Type }}{}
-			for iterator.ReadArray() {
+			iterator.ReadArrayCB(func(iterator *jsoniter.Iterator) bool {
 				{{ generateReadValue "item" .Type.Element false .linkOwner }}
 				list = append(list, item)
-			}
+				return true
+			})
 			return list
 		}
 		`,
@@ -997,6 +992,7 @@ func (g *JSONSupportGenerator) generateListMethodSource(method *concepts.Method)
 
 	// Generate the code:
 	g.buffer.Import("net/http", "")
+	g.buffer.Import("github.com/json-iterator/go", "jsoniter")
 	g.buffer.Import(g.packages.HelpersImport(), "")
 	g.buffer.Emit(`
 		func {{ writeRequestFunc .Method }}(request *{{ clientRequestName .Method }}, writer io.Writer) error {
@@ -1008,11 +1004,7 @@ func (g *JSONSupportGenerator) generateListMethodSource(method *concepts.Method)
 			if err != nil {
 				return err
 			}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				{{ if .Page }}
 					{{ generateReadBodyParameter "response" .Page }}
@@ -1040,7 +1032,8 @@ func (g *JSONSupportGenerator) generateListMethodSource(method *concepts.Method)
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return iterator.Error
 		}
 		`,
@@ -1125,6 +1118,7 @@ func (g *JSONSupportGenerator) generateSearchMethodSource(method *concepts.Metho
 
 	// Generate the code:
 	g.buffer.Import("net/http", "")
+	g.buffer.Import("github.com/json-iterator/go", "jsoniter")
 	g.buffer.Import(g.packages.HelpersImport(), "")
 	g.buffer.Emit(`
 		func {{ writeRequestFunc .Method }}(request *{{ clientRequestName .Method }}, writer io.Writer) error {
@@ -1140,11 +1134,7 @@ func (g *JSONSupportGenerator) generateSearchMethodSource(method *concepts.Metho
 			if err != nil {
 				return err
 			}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				{{ if .Page }}
 					{{ generateReadBodyParameter "response" .Page }}
@@ -1172,7 +1162,8 @@ func (g *JSONSupportGenerator) generateSearchMethodSource(method *concepts.Metho
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return iterator.Error
 		}
 		`,
@@ -1213,6 +1204,7 @@ func (g *JSONSupportGenerator) generateUpdateMethodSource(method *concepts.Metho
 
 func (g *JSONSupportGenerator) generateActionMethodSource(method *concepts.Method) {
 	g.buffer.Import("net/http", "")
+	g.buffer.Import("github.com/json-iterator/go", "jsoniter")
 	g.buffer.Import(g.packages.HelpersImport(), "")
 	g.buffer.Emit(`
 		{{ $requestBodyParameters := requestBodyParameters .Method }}
@@ -1242,11 +1234,7 @@ func (g *JSONSupportGenerator) generateActionMethodSource(method *concepts.Metho
 				if err != nil {
 					return err
 				}
-				for {
-					field := iterator.ReadObject()
-					if field == "" {
-						break
-					}
+				iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 					switch field {
 					{{ range $responseBodyParameters }}
 						{{ generateReadBodyParameter "response" . }}
@@ -1254,7 +1242,8 @@ func (g *JSONSupportGenerator) generateActionMethodSource(method *concepts.Metho
 					default:
 						iterator.ReadAny()
 					}
-				}
+					return true
+				})
 				return iterator.Error
 			{{ else }}
 				return nil
@@ -1356,11 +1345,7 @@ func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.
 			 	{{ $selectorFromLinkOwner := selectorFromLinkOwner .LinkOwner }}
 				{{ $structName := structName .Type }}
 				{{ .Variable }} := &{{ $selectorFromLinkOwner }}{{ $structName }}{}
-				for {
-					field := iterator.ReadObject()
-					if field == "" {
-						break
-					}
+				iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 					switch field {
 					case "kind":
 						text := iterator.ReadString()
@@ -1372,7 +1357,8 @@ func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.
 					default:
 						iterator.ReadAny()
 					}
-				}
+					return true
+				})
 			{{ else }}
 				{{ .Variable }} := {{ readTypeFunc .Type }}(iterator)
 			{{ end }}
-- 
2.43.0


From ee4c05ddb387235256a60166ba53b1e11e3c71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:53 +0000
Subject: [PATCH 27/34] fix: values of interface attributes were written with
 fields in random order

---
 pkg/generators/golang/json_generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 396f0be..729dd37 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -275,6 +275,7 @@ func (g *JSONSupportGenerator) generateHelpers() error {
 		func NewStream(writer io.Writer) *jsoniter.Stream {
 			config := jsoniter.Config{
 				IndentionStep: 2,
+				SortMapKeys:   true,
 			}
 			api := config.Froze()
 			return jsoniter.NewStream(api, writer, 0)
-- 
2.43.0


From 5794e29c7dcef2a468adf09f85803218f514224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:39 +0000
Subject: [PATCH 28/34] fix: output parameters of type interface were returned
 as pointers to their values

---
 pkg/generators/golang/json_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 729dd37..41c2195 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1298,7 +1298,7 @@ func (g *JSONSupportGenerator) generateReadBodyParameter(object string,
 	return g.buffer.Eval(`
 		case "{{ .Tag }}":
 			{{ generateReadValue "value" .Type false .LinkOwner }}
-			{{ if .Type.IsScalar }}
+			{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 				{{ .Object }}.{{ .Field }} = &value
 			{{ else }}
 				{{ .Object }}.{{ .Field }} = value
-- 
2.43.0


From 64f49eb50546a5b0188db4fa05a699f7b6c5631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:32 +0000
Subject: [PATCH 29/34] fix: describe the items of lists without paging as part
 of an object in OpenAPI specifications

---
 pkg/generators/openapi/openapi_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index 6d89cd3..220d538 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -403,7 +403,7 @@ func (g *OpenAPIGenerator) generateResponses(method *concepts.Method) {
 		g.buffer.StartObject("content")
 		g.buffer.StartObject("application/json")
 		g.buffer.StartObject("schema")
-		if len(parameters) > 1 || method.IsAction() {
+		if len(parameters) > 1 || method.IsAction() || method.IsList() || method.IsSearch() {
 			g.buffer.Field("type", "object")
 			g.buffer.StartObject("properties")
 			for _, parameter := range parameters {
-- 
2.43.0


From eac2bbc0deb877c95539800aa800540d88aa2ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:41 +0000
Subject: [PATCH 30/34] fix: honour the JSON name of the items of lists when
 reading responses

---
 pkg/generators/golang/json_generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 41c2195..5bec3e3 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -852,6 +852,7 @@ func (g *JSONSupportGenerator) generateResourceSupport(resource *concepts.Resour
 		Function("generateWriteValue", g.generateWriteValue).
 		Function("writeRefTypeFunc", g.writeRefTypeFunc).
 		Function("marshalTypeFunc", g.marshalTypeFunc).
+		Function("parameterBodyName", g.binding.BodyParameterName).
 		Function("parameterFieldName", g.parameterFieldName).
 		Function("parameterQueryName", g.binding.QueryParameterName).
 		Function("readResponseFunc", g.readResponseFunc).
@@ -1021,7 +1022,7 @@ func (g *JSONSupportGenerator) generateListMethodSource(method *concepts.Method)
 						{{ generateReadBodyParameter "response" . }}
 					{{ end }}
 				{{ end }}
-				case "items":
+				case "{{ parameterBodyName .Items }}":
 				{{ generateReadValue "items" .Items.Type false .LinkOwner }}
 				{{ if and .Items.Type.IsList .Items.Type.Element.IsScalar }}
 					response.items = items
@@ -1151,7 +1152,7 @@ func (g *JSONSupportGenerator) generateSearchMethodSource(method *concepts.Metho
 						{{ generateReadBodyParameter "response" . }}
 					{{ end }}
 				{{ end }}
-				case "items":
+				case "{{ parameterBodyName .Items }}":
 					{{ generateReadValue "items" .Items.Type false .LinkOwner }}
 					{{ if and .Items.Type.IsList .Items.Type.Element.IsScalar }}
 						response.items = items
-- 
2.43.0


From bb025073741b9e6b336247b5c4bb12efaa9817df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:55 +0000
Subject: [PATCH 31/34] fix: words of the summaries of the documentation were
 joined and tables broken by line breaks

---
 pkg/generators/docs/docs_generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/generators/docs/docs_generator.go b/pkg/generators/docs/docs_generator.go
index 1b4233e..80b349d 100644
--- a/pkg/generators/docs/docs_generator.go
+++ b/pkg/generators/docs/docs_generator.go
@@ -410,8 +410,8 @@ func (g *DocsGenerator) docSummary(object concepts.Documented) string {
 	index := strings.IndexRune(doc, '.')
 	if index != -1 {
 		doc = doc[0 : index+1]
-		doc = strings.ReplaceAll(doc, "\n", "")
 	}
 
-	return doc
+	// Summaries are placed inside tables, so they can't contain line breaks:
+	return strings.Join(strings.Fields(doc), " ")
 }
-- 
2.43.0


From 492f5c9382f4df1c33cd65cec14209af7dfce8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:04 +0000
Subject: [PATCH 32/34] fix: pages of documentation with very long lines were
 written wrong without reporting it

---
 pkg/markdown/buffer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/markdown/buffer.go b/pkg/markdown/buffer.go
index e46a590..d43ed80 100644
--- a/pkg/markdown/buffer.go
+++ b/pkg/markdown/buffer.go
@@ -229,7 +229,10 @@ func (b *Buffer) Write() error {
 	}
 
 	// Remove the leading tabs:
-	b.removeTabs()
+	err = b.removeTabs()
+	if err != nil {
+		return fmt.Errorf("can't remove tabs from file '%s': %w", b.file, err)
+	}
 
 	// Write the code:
 	_, err = b.code.WriteTo(outputFd)
@@ -251,9 +254,10 @@ func (b *Buffer) Write() error {
 
 // removeTabbs removes the tabs that are used in the templates to align them.
 func (b *Buffer) removeTabs() error {
-	// Split into lines:
+	// Split into lines, without limiting their length:
 	var lines []string
 	scanner := bufio.NewScanner(b.code)
+	scanner.Buffer(nil, b.code.Len()+1)
 	for scanner.Scan() {
 		line := strings.TrimRightFunc(scanner.Text(), unicode.IsSpace)
 		lines = append(lines, line)
-- 
2.43.0


From 90edc56969320779e6863f1c36034007295c0230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:03 +0000
Subject: [PATCH 33/34] fix: avoid collisions between parameters and the fixed
 members of requests and responses

---
 pkg/generators/golang/clients_generator.go | 41 +++++++++++++++++-----
 pkg/generators/golang/json_generator.go    |  2 +-
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index fe48f0c..a9aea82 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -456,6 +456,7 @@ func (g *ClientsGenerator) generateResourceClient(resource *concepts.Resource) e
 		Function("parameterName", g.binding.QueryParameterName).
 		Function("pollRequestName", g.pollRequestName).
 		Function("pollResponseName", g.pollResponseName).
+		Function("pollSetterName", g.pollSetterName).
 		Function("readResponseFunc", g.readResponseFunc).
 		Function("requestBodyParameters", g.binding.RequestBodyParameters).
 		Function("requestName", g.requestName).
@@ -622,7 +623,7 @@ func (g *ClientsGenerator) generatePollMethodSource(resource *concepts.Resource,
 		}
 
 		{{ range $methodRequestParameters }}
-			{{ $setterName := setterName . }}
+			{{ $setterName := pollSetterName . }}
 			{{ $setterType := setterType . }}
 
 			// {{ $setterName }} sets the value of the '{{ .Name }}' parameter for all the requests that
@@ -630,7 +631,7 @@ func (g *ClientsGenerator) generatePollMethodSource(resource *concepts.Resource,
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
-				r.request.{{ $setterName }}(value)
+				r.request.{{ setterName . }}(value)
 				return r
 			}
 		{{ end }}
@@ -1043,7 +1044,7 @@ func (g *ClientsGenerator) enumName(typ *concepts.Type) string {
 
 func (g *ClientsGenerator) fieldName(parameter *concepts.Parameter) string {
 	name := g.names.Private(parameter.Name())
-	name = g.avoidBuiltin(name, builtinFields)
+	name = avoidBuiltin(name, builtinFields)
 	return name
 }
 
@@ -1070,7 +1071,7 @@ func (g *ClientsGenerator) getterName(parameter *concepts.Parameter) string {
 	if name == "" {
 		name = g.names.Public(parameter.Name())
 	}
-	name = g.avoidBuiltin(name, builtinGetters)
+	name = avoidBuiltin(name, builtinGetters)
 	return name
 }
 
@@ -1083,10 +1084,14 @@ func (g *ClientsGenerator) setterName(parameter *concepts.Parameter) string {
 	if name == "" {
 		name = g.names.Public(parameter.Name())
 	}
-	name = g.avoidBuiltin(name, builtinSetters)
+	name = avoidBuiltin(name, builtinSetters)
 	return name
 }
 
+func (g *ClientsGenerator) pollSetterName(parameter *concepts.Parameter) string {
+	return avoidBuiltin(g.setterName(parameter), builtinPollSetters)
+}
+
 func (g *ClientsGenerator) setterType(parameter *concepts.Parameter) *TypeReference {
 	return g.accessorType(parameter)
 }
@@ -1245,7 +1250,7 @@ func (g *ClientsGenerator) readResponseFunc(method *concepts.Method) string {
 	return g.names.Private(name)
 }
 
-func (g *ClientsGenerator) avoidBuiltin(name string, builtins map[string]interface{}) string {
+func avoidBuiltin(name string, builtins map[string]interface{}) string {
 	_, ok := builtins[name]
 	if ok {
 		name = name + "_"
@@ -1254,13 +1259,31 @@ func (g *ClientsGenerator) avoidBuiltin(name string, builtins map[string]interfa
 }
 
 var builtinFields = map[string]interface{}{
-	"err":    nil,
-	"status": nil,
+	"err":       nil,
+	"header":    nil,
+	"path":      nil,
+	"query":     nil,
+	"status":    nil,
+	"transport": nil,
 }
 
 var builtinGetters = map[string]interface{}{
 	"Error":  nil,
+	"Header": nil,
 	"Status": nil,
 }
 
-var builtinSetters = map[string]interface{}{}
+var builtinSetters = map[string]interface{}{
+	"Header":      nil,
+	"Impersonate": nil,
+	"Parameter":   nil,
+	"Send":        nil,
+	"SendContext": nil,
+}
+
+var builtinPollSetters = map[string]interface{}{
+	"Interval":     nil,
+	"Predicate":    nil,
+	"StartContext": nil,
+	"Status":       nil,
+}
diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 5bec3e3..1913d27 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1554,7 +1554,7 @@ func (g *JSONSupportGenerator) fieldName(attribute *concepts.Attribute) string {
 }
 
 func (g *JSONSupportGenerator) parameterFieldName(parameter *concepts.Parameter) string {
-	return g.names.Private(parameter.Name())
+	return avoidBuiltin(g.names.Private(parameter.Name()), builtinFields)
 }
 
 func (g *JSONSupportGenerator) clientRequestName(method *concepts.Method) string {
-- 
2.43.0


From 38b9f82143ab2a21b00ff65b4f0a8f69c3089a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 34/34] fix: Body of a nil metadata response is nil, like in
 all the other responses

---
 pkg/generators/golang/clients_generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index a9aea82..a56b44d 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -422,6 +422,9 @@ func (g *ClientsGenerator) generateVersionMetadataClientSource(version *concepts
 
 		// Body returns the response body.
 		func (r *MetadataResponse) Body() *Metadata {
+			if r == nil {
+				return nil
+			}
 			return r.body
 		}
 		`,
-- 
2.43.0

