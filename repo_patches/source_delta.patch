From be837f9d1a0ca6c089b29f9ec9b15f63551b4396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:51 +0000
Subject: [PATCH 01/15] fix: compare errors by their actual names when sorting
 them

The Error type had a second, never assigned, name field that hid the real one,
so sorting the errors of a version that has more than one failed with a nil
pointer dereference and the Go code could not be generated.
---
 pkg/concepts/error.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/concepts/error.go b/pkg/concepts/error.go
index 502bc64..ceec38f 100644
--- a/pkg/concepts/error.go
+++ b/pkg/concepts/error.go
@@ -27,7 +27,6 @@ type Error struct {
 	namedSupport
 
 	owner *Version
-	name  *names.Name
 	code  int
 }
 
@@ -64,7 +63,7 @@ func (s ErrorSlice) Len() int {
 }
 
 func (s ErrorSlice) Less(i, j int) bool {
-	return names.Compare(s[i].name, s[j].name) == -1
+	return names.Compare(s[i].Name(), s[j].Name()) == -1
 }
 
 func (s ErrorSlice) Swap(i, j int) {
-- 
2.43.0


From ace394e24eaf23caab8d4435c051771f8036ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:51 +0000
Subject: [PATCH 02/15] fix: report failures to write the header of generated
 Go files

The results of writing the header, the package clause and the imports were
ignored, so a file without them could be generated without any error.
---
 pkg/generators/golang/buffer.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/generators/golang/buffer.go b/pkg/generators/golang/buffer.go
index 26044b0..7428bde 100644
--- a/pkg/generators/golang/buffer.go
+++ b/pkg/generators/golang/buffer.go
@@ -330,26 +330,32 @@ func (b *Buffer) Write() error {
 	}
 
 	// Write the header:
-	fmt.Fprintf(outputFd, "%s\n", fileHeader)
-	fmt.Fprintf(outputFd, "\n")
+	header := new(bytes.Buffer)
+	fmt.Fprintf(header, "%s\n", fileHeader)
+	fmt.Fprintf(header, "\n")
 
 	// Write the package statement:
 	pkgName := b.cleanPkg(path.Base(b.pkg))
-	fmt.Fprintf(outputFd, "package %s // %s\n", pkgName, b.pkg)
-	fmt.Fprintf(outputFd, "\n")
+	fmt.Fprintf(header, "package %s // %s\n", pkgName, b.pkg)
+	fmt.Fprintf(header, "\n")
 
 	// Write the import statement:
 	if len(b.imports) > 0 {
-		fmt.Fprintf(outputFd, "import (\n")
+		fmt.Fprintf(header, "import (\n")
 		for imprt, selector := range b.imports {
 			if selector != "" {
-				fmt.Fprintf(outputFd, "%s \"%s\"\n", selector, imprt)
+				fmt.Fprintf(header, "%s \"%s\"\n", selector, imprt)
 			} else {
-				fmt.Fprintf(outputFd, "\"%s\"\n", imprt)
+				fmt.Fprintf(header, "\"%s\"\n", imprt)
 			}
 		}
-		fmt.Fprintf(outputFd, ")\n")
-		fmt.Fprintf(outputFd, "\n")
+		fmt.Fprintf(header, ")\n")
+		fmt.Fprintf(header, "\n")
+	}
+
+	_, err = header.WriteTo(outputFd)
+	if err != nil {
+		return fmt.Errorf("can't write header to file '%s': %w", b.file, err)
 	}
 
 	// Remove extra blank lines from the code:
-- 
2.43.0


From 495b6185f8947930aa7dbfc593fa861e28c5b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:51 +0000
Subject: [PATCH 03/15] fix: report failures to remove tabs from generated
 documentation

If the text contains a very long line the scanner fails, and the rest of the
document was silently dropped.
---
 pkg/markdown/buffer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/markdown/buffer.go b/pkg/markdown/buffer.go
index e46a590..e3692b9 100644
--- a/pkg/markdown/buffer.go
+++ b/pkg/markdown/buffer.go
@@ -229,7 +229,10 @@ func (b *Buffer) Write() error {
 	}
 
 	// Remove the leading tabs:
-	b.removeTabs()
+	err = b.removeTabs()
+	if err != nil {
+		return fmt.Errorf("can't remove tabs: %w", err)
+	}
 
 	// Write the code:
 	_, err = b.code.WriteTo(outputFd)
-- 
2.43.0


From f0fa006d82dbec6042b4a1d50becfe13a3f9cea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:51 +0000
Subject: [PATCH 04/15] fix: reject model files that aren't parsed till their
 end

The parser stops without reporting an error at the first token that can't start
a declaration, so the rest of the file, with all the declarations that it
contains, was silently ignored.
---
 pkg/language/reader.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 2972465..ed20faf 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -334,6 +334,18 @@ func (r *Reader) loadFile(path string) {
 	parser.RemoveErrorListeners()
 	parser.AddErrorListener(listener)
 	tree := parser.File()
+
+	// Check that the complete file has been parsed, as the parser stops without complaining when it
+	// finds text that can't be the start of another declaration:
+	token := parser.GetCurrentToken()
+	if token.GetTokenType() != antlr.TokenEOF {
+		r.reporter.Errorf(
+			"%s:%d:%d: Unexpected text '%s'",
+			path, token.GetLine(), token.GetColumn(), token.GetText(),
+		)
+		return
+	}
+
 	antlr.ParseTreeWalkerDefault.Walk(r, tree)
 }
 
-- 
2.43.0


From f25040f65507a7dde80299842292eb2b709aa7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:54 +0000
Subject: [PATCH 05/15] fix: track undefined concepts separately for each
 version

The concepts that have been referenced but not yet defined were indexed only by
name, so a definition in one version hid that the same name wasn't defined in
another version.
---
 pkg/language/reader.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index ed20faf..f55d7b3 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -1021,51 +1021,57 @@ func (r *Reader) ExitAnnotationParameter(ctx *AnnotationParameterContext) {
 	ctx.SetValue(ctx.Literal().GetResult())
 }
 
+// undefinedKey calculates the key used to store undefined concepts. It includes the names of the
+// service and of the version because the same name may be used in multiple versions.
+func (r *Reader) undefinedKey(name *names.Name) string {
+	return fmt.Sprintf("%s/%s/%s", r.service.Name(), r.version.Name(), name)
+}
+
 func (r *Reader) isUndefinedType(typ *concepts.Type) bool {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	_, ok := r.undefinedTypes[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	r.undefinedTypes[key] = typ
 }
 
 func (r *Reader) removeUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	delete(r.undefinedTypes, key)
 }
 
 func (r *Reader) isUndefinedResource(resource *concepts.Resource) bool {
-	key := resource.Name().String()
+	key := r.undefinedKey(resource.Name())
 	_, ok := r.undefinedResources[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedResource(resource *concepts.Resource) {
-	key := resource.Name().String()
+	key := r.undefinedKey(resource.Name())
 	r.undefinedResources[key] = resource
 }
 
 func (r *Reader) removeUndefinedResource(typ *concepts.Resource) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	delete(r.undefinedResources, key)
 }
 
 func (r *Reader) isUndefinedError(err *concepts.Error) bool {
-	key := err.Name().String()
+	key := r.undefinedKey(err.Name())
 	_, ok := r.undefinedErrors[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedError(err *concepts.Error) {
-	key := err.Name().String()
+	key := r.undefinedKey(err.Name())
 	r.undefinedErrors[key] = err
 }
 
 func (r *Reader) removeUndefinedError(typ *concepts.Error) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	delete(r.undefinedErrors, key)
 }
 
-- 
2.43.0


From d1bd7dc402a73d5b655967ba188f48cbcbf69a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:08 +0000
Subject: [PATCH 06/15] fix: fail if the temporary OpenAPI directory can't be
 removed

The problem was reported as an error, but the command still finished with
status zero.
---
 pkg/generators/golang/openapi_generator.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/generators/golang/openapi_generator.go b/pkg/generators/golang/openapi_generator.go
index d3097c1..963982d 100644
--- a/pkg/generators/golang/openapi_generator.go
+++ b/pkg/generators/golang/openapi_generator.go
@@ -139,19 +139,22 @@ func (b *OpenAPIGeneratorBuilder) Build() (generator *OpenAPIGenerator, err erro
 }
 
 // Run executes the code generator.
-func (g *OpenAPIGenerator) Run() error {
+func (g *OpenAPIGenerator) Run() (err error) {
 	// Create a temporary directory to write the OpenAPI JSON to, and remember to delete it:
 	jsonDir, err := os.MkdirTemp("", "openapi")
 	if err != nil {
 		return g.reporter.Errorf("Can't create temporary OpenAPI directory: %v", err)
 	}
 	defer func() {
-		err := os.RemoveAll(jsonDir)
-		if err != nil {
-			g.reporter.Errorf(
+		removeErr := os.RemoveAll(jsonDir)
+		if removeErr != nil {
+			removeErr = g.reporter.Errorf(
 				"Can't remove temporary OpenAPI directory '%s': %v",
-				jsonDir, err,
+				jsonDir, removeErr,
 			)
+			if err == nil {
+				err = removeErr
+			}
 		}
 	}()
 
-- 
2.43.0


From 92cb3f5f4744fee43ff61c8d59ee105f25ca0afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:08 +0000
Subject: [PATCH 07/15] fix: return an error when polling gives up before the
 deadline

When there was no time left for another attempt the polling loop returned the
last response without an error, even if it didn't satisfy the conditions.
---
 pkg/generators/golang/helpers_generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/generators/golang/helpers_generator.go b/pkg/generators/golang/helpers_generator.go
index daaabb6..a0e3d83 100644
--- a/pkg/generators/golang/helpers_generator.go
+++ b/pkg/generators/golang/helpers_generator.go
@@ -272,6 +272,9 @@ func (g *HelpersGenerator) Run() error {
 				// have enough time for another iteration before the deadline:
 				if time.Now().Add(interval).After(deadline) {
 					cancel()
+					if err == nil {
+						err = context.DeadlineExceeded
+					}
 					break
 				}
 				time.Sleep(interval)
-- 
2.43.0


From 715a68515fce907f50381413a6d910764ddc49df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:29 +0000
Subject: [PATCH 08/15] fix: support references to classes that contain
 themselves

Importing a class that directly or indirectly has attributes of its own type
never ended, till the stack of the process was exhausted.
---
 pkg/language/reader.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index f55d7b3..745d9dd 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -498,16 +498,18 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	// Once loading the service, we find the reference type
 	// then recursively iterate the type tree and add the types to the current version.
 	if referencedType := refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_")); referencedType != nil {
-		r.recursivelyAddTypeToVersion(typ, referencedType)
+		r.recursivelyAddTypeToVersion(typ, referencedType, map[*concepts.Type]bool{})
 	}
 }
 
-// A helper function to recursively add types to a version
+// A helper function to recursively add types to a version. Types that have already been visited are
+// ignored, otherwise types that directly or indirectly contain themselves would never end.
 func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
-	referencedType *concepts.Type) {
-	if referencedType.IsBasicType() {
+	referencedType *concepts.Type, visited map[*concepts.Type]bool) {
+	if referencedType.IsBasicType() || visited[referencedType] {
 		return
 	}
+	visited[referencedType] = true
 	for _, attribute := range referencedType.Attributes() {
 		// If attribute is explicitDeclared, it needs to change it's owner to be the same as currType
 		if attribute.Link() {
@@ -531,9 +533,9 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 			attribute.SetLinkOwner(attribute.Type().Owner())
 		} else if attribute.Type().IsList() || attribute.Type().IsMap() {
 			r.version.AddType(attribute.Type())
-			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element())
+			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element(), visited)
 		} else {
-			r.recursivelyAddTypeToVersion(currType, attribute.Type())
+			r.recursivelyAddTypeToVersion(currType, attribute.Type(), visited)
 		}
 	}
 
-- 
2.43.0


From dcbfef025ab9b6d54e31cff130cbe97d5fc751b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:06 +0000
Subject: [PATCH 09/15] fix: Name the imports of the version packages

The service client imported the packages of the versions without a
name. The formatter assumes that a package whose import path ends with
'/v1' is named like the previous path segment, unless it can find the
sources of the package. When the output directory isn't inside the
corresponding module it removed the import, and imported any other
package named 'v1' that it could find.
---
 pkg/generators/golang/clients_generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 994d78c..13424a1 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -222,7 +222,10 @@ func (g *ClientsGenerator) generateServiceClientSource(service *concepts.Service
 	g.buffer.Import("net/http", "")
 	g.buffer.Import("path", "")
 	for _, version := range service.Versions() {
-		g.buffer.Import(g.packages.VersionImport(version), "")
+		g.buffer.Import(
+			g.packages.VersionImport(version),
+			g.packages.VersionSelector(version),
+		)
 	}
 	g.buffer.Emit(`
 		// Client is the client for service '{{ .Service.Name }}'.
-- 
2.43.0


From 0a1c9472fb48e5045be565a402fe5df88295fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:03 +0000
Subject: [PATCH 10/15] fix: import the JSON package explicitly in the errors
 package

The generated errors package uses 'jsoniter' but relied on 'goimports' finding it in the machine,
and depending on the location of the output and the state of the module cache it didn't.
---
 pkg/generators/golang/errors_generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index a88ecaf..e01cb64 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -176,6 +176,7 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 	g.buffer.Import("io", "")
 	g.buffer.Import("strings", "")
 	g.buffer.Import("time", "")
+	g.buffer.Import("github.com/json-iterator/go", "jsoniter")
 	g.buffer.Import("github.com/golang/glog", "")
 	g.buffer.Import("github.com/openshift-online/ocm-api-metamodel/pkg/runtime", "")
 	g.buffer.Import(g.packages.HelpersImport(), "")
-- 
2.43.0


From 18d66c83691e33bd3a29f27124b1b7089c81fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:18 +0000
Subject: [PATCH 11/15] fix: don't mistake an empty name for the end of a JSON
 object

The generated code read objects with 'ReadObject', which returns the empty string both for the end
of the object and for a field whose name is the empty string, so everything after such a field or
map key was silently lost. It also accepted things that aren't JSON objects or arrays, like '}',
',"a":1}' or '{"a":1null', without any error.
---
 pkg/generators/golang/errors_generator.go |  9 +--
 pkg/generators/golang/json_generator.go   | 71 +++++++++--------------
 2 files changed, 30 insertions(+), 50 deletions(-)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index e01cb64..0674b64 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -529,11 +529,7 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 
 		func readError(iterator *jsoniter.Iterator) *Error {
 			object := &Error{}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				case "status":
 					object.status = iterator.ReadInt()
@@ -567,7 +563,8 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return object
 		}
 
diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 66fac4b..4e96c60 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -510,11 +510,7 @@ func (g *JSONSupportGenerator) generateVersionMetadataSource(version *concepts.V
 
 		func readMetadata(iterator *jsoniter.Iterator) *Metadata {
 			object := &Metadata{}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				case "server_version":
 					object.serverVersion = iterator.ReadString()
@@ -522,7 +518,8 @@ func (g *JSONSupportGenerator) generateVersionMetadataSource(version *concepts.V
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return object
 		}
 		`,
@@ -676,11 +673,7 @@ func (g *JSONSupportGenerator) generateStructTypeSource(typ *concepts.Type) {
 		// {{ $readTypeFunc }} reads a value of the '{{ .Type.Name }}' type from the given iterator.
 		func {{ $readTypeFunc }}(iterator *jsoniter.Iterator) *{{ $structName }} {
 			object := &{{ $structName }}{}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				{{ if .Type.IsClass }}
 					case "kind":
@@ -707,7 +700,8 @@ func (g *JSONSupportGenerator) generateStructTypeSource(typ *concepts.Type) {
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return object
 		}
 		`,
@@ -816,10 +810,11 @@ func (g *JSONSupportGenerator) generateListTypeSource(
 		// the given iterator.
 		func {{ $readTypeFunc }}(iterator *jsoniter.Iterator) {{ $sliceType }} {
 			list := {{ valueReference .Type }}{}
-			for iterator.ReadArray() {
+			iterator.ReadArrayCB(func(iterator *jsoniter.Iterator) bool {
 				{{ generateReadValue "item" .Type.Element false .linkOwner }}
 				list = append(list, item)
-			}
+				return true
+			})
 			return list
 		}
 		`,
@@ -995,6 +990,7 @@ func (g *JSONSupportGenerator) generateListMethodSource(method *concepts.Method)
 
 	// Generate the code:
 	g.buffer.Import("net/http", "")
+	g.buffer.Import("github.com/json-iterator/go", "jsoniter")
 	g.buffer.Import(g.packages.HelpersImport(), "")
 	g.buffer.Emit(`
 		func {{ writeRequestFunc .Method }}(request *{{ clientRequestName .Method }}, writer io.Writer) error {
@@ -1006,11 +1002,7 @@ func (g *JSONSupportGenerator) generateListMethodSource(method *concepts.Method)
 			if err != nil {
 				return err
 			}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				{{ if .Page }}
 					{{ generateReadBodyParameter "response" .Page }}
@@ -1038,7 +1030,8 @@ func (g *JSONSupportGenerator) generateListMethodSource(method *concepts.Method)
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return iterator.Error
 		}
 		`,
@@ -1123,6 +1116,7 @@ func (g *JSONSupportGenerator) generateSearchMethodSource(method *concepts.Metho
 
 	// Generate the code:
 	g.buffer.Import("net/http", "")
+	g.buffer.Import("github.com/json-iterator/go", "jsoniter")
 	g.buffer.Import(g.packages.HelpersImport(), "")
 	g.buffer.Emit(`
 		func {{ writeRequestFunc .Method }}(request *{{ clientRequestName .Method }}, writer io.Writer) error {
@@ -1138,11 +1132,7 @@ func (g *JSONSupportGenerator) generateSearchMethodSource(method *concepts.Metho
 			if err != nil {
 				return err
 			}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				{{ if .Page }}
 					{{ generateReadBodyParameter "response" .Page }}
@@ -1170,7 +1160,8 @@ func (g *JSONSupportGenerator) generateSearchMethodSource(method *concepts.Metho
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return iterator.Error
 		}
 		`,
@@ -1211,6 +1202,7 @@ func (g *JSONSupportGenerator) generateUpdateMethodSource(method *concepts.Metho
 
 func (g *JSONSupportGenerator) generateActionMethodSource(method *concepts.Method) {
 	g.buffer.Import("net/http", "")
+	g.buffer.Import("github.com/json-iterator/go", "jsoniter")
 	g.buffer.Import(g.packages.HelpersImport(), "")
 	g.buffer.Emit(`
 		{{ $requestBodyParameters := requestBodyParameters .Method }}
@@ -1240,11 +1232,7 @@ func (g *JSONSupportGenerator) generateActionMethodSource(method *concepts.Metho
 				if err != nil {
 					return err
 				}
-				for {
-					field := iterator.ReadObject()
-					if field == "" {
-						break
-					}
+				iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 					switch field {
 					{{ range $responseBodyParameters }}
 						{{ generateReadBodyParameter "response" . }}
@@ -1252,7 +1240,8 @@ func (g *JSONSupportGenerator) generateActionMethodSource(method *concepts.Metho
 					default:
 						iterator.ReadAny()
 					}
-				}
+					return true
+				})
 				return iterator.Error
 			{{ else }}
 				return nil
@@ -1354,11 +1343,7 @@ func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.
 			 	{{ $selectorFromLinkOwner := selectorFromLinkOwner .LinkOwner }}
 				{{ $structName := structName .Type }}
 				{{ .Variable }} := &{{ $selectorFromLinkOwner }}{{ $structName }}{}
-				for {
-					field := iterator.ReadObject()
-					if field == "" {
-						break
-					}
+				iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 					switch field {
 					case "kind":
 						text := iterator.ReadString()
@@ -1370,20 +1355,18 @@ func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.
 					default:
 						iterator.ReadAny()
 					}
-				}
+					return true
+				})
 			{{ else }}
 				{{ .Variable }} := {{ readTypeFunc .Type }}(iterator)
 			{{ end }}
 		{{ else if .Type.IsMap }}
 			{{ .Variable }} := {{ valueReference .Type }}{}
-			for {
-				key := iterator.ReadObject()
-				if key == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, key string) bool {
 				{{ generateReadValue "item" .Type.Element false .LinkOwner }}
 				{{ .Variable }}[key] = item
-			}
+				return true
+			})
 		{{ else }}
 			iterator.ReadAny()
 		{{ end }}
-- 
2.43.0


From e9d79386fd55d17f5a6908aaeea2915c473622cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:04 +0000
Subject: [PATCH 12/15] fix: keep empty maps when copying objects into builders

Copy replaced an empty map with nil while keeping the attribute marked as
present, so the built object lost the attribute when written as JSON.
---
 pkg/generators/golang/builders_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 643d3d1..e8d627b 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -367,7 +367,7 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 						b.{{ $fieldName }} = nil
 					}
 				{{ else if .Type.IsMap }}
-					if len(object.{{ $fieldName }}) > 0 {
+					if object.{{ $fieldName }} != nil {
 						{{ if .Type.Element.IsScalar }}
 							b.{{ $fieldName }} = {{ $fieldType }}{}
 							for k, v := range object.{{ $fieldName }} {
-- 
2.43.0


From 7a4a89aee650400a3d9da7207bad490b4ee2b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:04 +0000
Subject: [PATCH 13/15] fix: send panic errors with an error status

SendPanic never wrote the status, so the error document was sent with an
implicit 200 and clients took it for a successful answer.
---
 pkg/generators/golang/errors_generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index 0674b64..4f7c9fd 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -655,6 +655,7 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 		// This methods is used internaly and no backwards compatibily is guaranteed.
 		func SendPanic(w http.ResponseWriter, r *http.Request) {
 			w.Header().Set("Content-Type", "application/json")
+			w.WriteHeader(http.StatusInternalServerError)
 			err := MarshalError(panicError, w)
 			if err != nil {
 				glog.Errorf(
-- 
2.43.0


From c8ca5dd4cd2d3fb09881b425f0cbc46aae0e7df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:04 +0000
Subject: [PATCH 14/15] fix: don't panic sending errors whose identifier isn't
 a status

Writing a header with a code outside of the range from 100 to 999 panics,
and the client receives no answer.
---
 pkg/generators/golang/errors_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index 4f7c9fd..8413e0b 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -638,7 +638,7 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 		// This methods is used internaly and no backwards compatibily is guaranteed.
 		func SendError(w http.ResponseWriter, r *http.Request, object *Error) {
 			status, err := strconv.Atoi(object.ID())
-			if err != nil {
+			if err != nil || status < 100 || status > 999 {
 				SendPanic(w, r)
 				return
 			}
-- 
2.43.0


From 20e1622bf54c89b6dce686b785710327817a5dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:56 +0000
Subject: [PATCH 15/15] fix: reject references to types that don't exist

---
 pkg/language/reader.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 745d9dd..2f7c4e8 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -478,6 +478,14 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	input := r.inputs[0]
 	path = strings.TrimPrefix(path, "/")
 	components := strings.Split(path, "/")
+	if len(components) != 3 {
+		r.reporter.Errorf(
+			"Reference '%s' of type '%s' should contain the names of a service, a version "+
+				"and a type",
+			path, typ.Name(),
+		)
+		return
+	}
 	referencedServiceName := components[0]
 	referencedVersion := components[1]
 	referencedTypeName := components[2]
@@ -494,12 +502,26 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 
 	// load the ad-hoc service and version referenced and find the correct type.
 	refReader.loadService(fmt.Sprintf("%s/%s", input, referencedServiceName))
+	if refReader.service == nil {
+		// The reason has already been reported.
+		return
+	}
+	var referencedType *concepts.Type
 	refVersion := refReader.service.FindVersion(names.ParseUsingSeparator(referencedVersion, "_"))
+	if refVersion != nil {
+		referencedType = refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_"))
+	}
+	if referencedType == nil {
+		r.reporter.Errorf(
+			"Type '%s' referenced by type '%s' isn't defined",
+			path, typ.Name(),
+		)
+		return
+	}
+
 	// Once loading the service, we find the reference type
 	// then recursively iterate the type tree and add the types to the current version.
-	if referencedType := refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_")); referencedType != nil {
-		r.recursivelyAddTypeToVersion(typ, referencedType, map[*concepts.Type]bool{})
-	}
+	r.recursivelyAddTypeToVersion(typ, referencedType, map[*concepts.Type]bool{})
 }
 
 // A helper function to recursively add types to a version. Types that have already been visited are
-- 
2.43.0

