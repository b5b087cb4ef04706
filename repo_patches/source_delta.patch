From 5e81f08dbaaa76bcf2585f73fc30d998e38b3c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 01/39] fix: decode times outside the range of int64
 nanoseconds

UpdateExt went through time.Unix(0, ms*1e6), which overflows before 1677 and
after 2262; the zero time among others arrived as another instant.
---
 timeext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeext.go b/timeext.go
index 7326ae5..5b10679 100644
--- a/timeext.go
+++ b/timeext.go
@@ -15,5 +15,5 @@ func (x *TimeExt) ConvertExt(v interface{}) interface{} {
 func (x *TimeExt) UpdateExt(dest interface{}, src interface{}) {
 	tt := dest.(*time.Time) //nolint:forcetypeassert
 
-	*tt = time.Unix(0, src.(int64)*int64(time.Millisecond)).Local() //nolint:forcetypeassert
+	*tt = time.UnixMilli(src.(int64)).Local() //nolint:forcetypeassert
 }
-- 
2.43.0


From 4b01d2a94ab5dd3fe66712f4c6fdfb357e0c1919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 02/39] fix: keep the message of errors that carry several
 stacks

NewError skipped a single *withStack; with more of them the message was
repeated once per stack. Error types that carry a stack and a message of
their own are not skipped any more, they lost their message.
---
 error.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/error.go b/error.go
index 3e7b33a..13265e0 100644
--- a/error.go
+++ b/error.go
@@ -20,18 +20,25 @@ type Error struct {
 
 // NewError returns a new instance
 func NewError(err error) *Error {
+	// skip *withStack error types, these add nothing but a stack
+	for {
+		if _, ok := err.(interface {
+			StackTrace() errors.StackTrace
+		}); !ok {
+			break
+		}
+		unwrappedErr := errors.Unwrap(err)
+		if unwrappedErr == nil || unwrappedErr.Error() != err.Error() {
+			break
+		}
+		err = unwrappedErr
+	}
+
 	// check if already transformed
 	if v, ok := err.(*Error); ok { //nolint:errorlint
 		return v
 	}
 
-	// skip *withStack error type
-	if _, ok := err.(interface {
-		StackTrace() errors.StackTrace
-	}); ok && errors.Unwrap(err) != nil {
-		err = errors.Unwrap(err)
-	}
-
 	// retrieve error details
 	errType := reflect.TypeOf(err)
 	errElem := errType
-- 
2.43.0


From a579f957e4fbf60f3e4f248418bf5cf095586f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 03/39] fix: keep the message of errors that do not end in
 their cause

The message of a transported error was put together as 'message: cause', also
for errors that wrap their cause in another way ('%w (retry)', or no text of
their own), which changed what they say.
---
 error.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/error.go b/error.go
index 13265e0..050baab 100644
--- a/error.go
+++ b/error.go
@@ -16,6 +16,8 @@ type Error struct {
 	Type     string      `json:"t"`
 	Data     interface{} `json:"d,omitempty"`
 	ErrCause *Error      `json:"c,omitempty"`
+	// Complete is set if Msg already includes the message of the cause
+	Complete bool `json:"w,omitempty"`
 }
 
 // NewError returns a new instance
@@ -56,7 +58,11 @@ func NewError(err error) *Error {
 	// unwrap error
 	if unwrappedErr := errors.Unwrap(err); unwrappedErr != nil {
 		inst.ErrCause = NewError(unwrappedErr)
-		inst.Msg = strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())
+		if msg, ok := strings.CutSuffix(inst.Msg, ": "+unwrappedErr.Error()); ok {
+			inst.Msg = msg
+		} else {
+			inst.Complete = true
+		}
 	}
 
 	return inst
@@ -134,7 +140,7 @@ func (e *Error) Is(err error) bool {
 // Error interface
 func (e *Error) Error() string {
 	msg := e.Msg
-	if e.ErrCause != nil {
+	if e.ErrCause != nil && !e.Complete {
 		msg += ": " + e.ErrCause.Error()
 	}
 	return msg
-- 
2.43.0


From 4f26a0ac057884e9ee2d6dbcb0727d7290a69387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 04/39] fix: find wrapping errors in the chain of a transported
 error

Is compared the text an error adds to its cause with the whole message of the
target, so that only the innermost error of a chain was ever found.
---
 error.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/error.go b/error.go
index 050baab..883e37b 100644
--- a/error.go
+++ b/error.go
@@ -122,19 +122,12 @@ func (e *Error) Is(err error) bool {
 		return false
 	}
 
-	errType := reflect.TypeOf(err)
-	errElem := errType
-	if errType.Kind() == reflect.Ptr {
-		errElem = errType.Elem()
-	}
-
-	if e.Msg == err.Error() &&
-		errType.String() == e.Type &&
-		errElem.PkgPath() == e.Pkg {
-		return true
-	}
+	// look at the target the same way as at the transported error
+	target := NewError(err)
 
-	return false
+	return e.Error() == target.Error() &&
+		e.Type == target.Type &&
+		e.Pkg == target.Pkg
 }
 
 // Error interface
-- 
2.43.0


From c928a9d319274d5d67580da7c817445f8e12b3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 05/39] fix: do not mistake errors of packages with the same
 name in As

As compared the type name only, which has just the last element of the package
path in it.
---
 error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 883e37b..bad68f4 100644
--- a/error.go
+++ b/error.go
@@ -73,7 +73,12 @@ func (e *Error) As(err interface{}) bool {
 	if e == nil || err == nil {
 		return false
 	}
-	if reflect.TypeOf(err).Elem().String() == e.Type {
+	errType := reflect.TypeOf(err).Elem()
+	errElem := errType
+	if errType.Kind() == reflect.Ptr {
+		errElem = errType.Elem()
+	}
+	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {
 		if decodeErr := mapstructure.Decode(e.Data, &err); decodeErr != nil {
 			fmt.Printf("ERROR: failed to decode error data\n%+v", decodeErr)
 			return false
-- 
2.43.0


From a3790f1740dc416105204e45b88890f63e25b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 06/39] fix: restore the json tagged fields of transported
 errors

The data of an error travels under its json names, but was restored by the Go
field names: fields with a json name of their own and embedded ones got lost.
---
 error.go     | 15 ++++++++++++++-
 transport.go |  3 +--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/error.go b/error.go
index bad68f4..4709aa7 100644
--- a/error.go
+++ b/error.go
@@ -79,7 +79,7 @@ func (e *Error) As(err interface{}) bool {
 		errElem = errType.Elem()
 	}
 	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {
-		if decodeErr := mapstructure.Decode(e.Data, &err); decodeErr != nil {
+		if decodeErr := decodeErrorData(e.Data, err); decodeErr != nil {
 			fmt.Printf("ERROR: failed to decode error data\n%+v", decodeErr)
 			return false
 		} else {
@@ -143,3 +143,16 @@ func (e *Error) Error() string {
 	}
 	return msg
 }
+
+// decodeErrorData restores the data of a transported error, the field names on the wire being the json ones
+func decodeErrorData(data interface{}, dest interface{}) error {
+	decoder, err := mapstructure.NewDecoder(&mapstructure.DecoderConfig{
+		TagName: "json",
+		Squash:  true,
+		Result:  dest,
+	})
+	if err != nil {
+		return err
+	}
+	return decoder.Decode(data)
+}
diff --git a/transport.go b/transport.go
index 8ea7d95..aadbd73 100644
--- a/transport.go
+++ b/transport.go
@@ -4,7 +4,6 @@ import (
 	"reflect"
 	"time"
 
-	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
 )
@@ -61,7 +60,7 @@ var msgpackClientHandle = &clientHandle{
 			if e, ok := v.(*Error); ok && e != nil {
 				if y, ok := (*reply)[k].(*error); ok {
 					*y = e
-				} else if err := mapstructure.Decode(e.Data, (*reply)[k]); err != nil {
+				} else if err := decodeErrorData(e.Data, (*reply)[k]); err != nil {
 					return errors.Wrap(err, "failed to decode wrapped error")
 				}
 			}
-- 
2.43.0


From f61b954875edd3a259b2ce35184e0d71783bdb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 07/39] fix: transport errors that are zero values

Only nil pointers (and nil maps, ...) mean no error. An error that is the zero
value of its type, like struct{}, was sent as it is and arrived as an empty
error, or made the client fail to decode the reply.
---
 transport.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transport.go b/transport.go
index aadbd73..bab6623 100644
--- a/transport.go
+++ b/transport.go
@@ -32,9 +32,13 @@ var msgpackClientHandle = &clientHandle{
 	beforeEncodeReply: func(resp *[]interface{}) error {
 		for k, v := range *resp {
 			if e, ok := v.(error); ok {
-				if r := reflect.ValueOf(e); !r.IsZero() {
-					(*resp)[k] = NewError(e)
+				switch r := reflect.ValueOf(e); r.Kind() {
+				case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
+					if r.IsNil() {
+						continue
+					}
 				}
+				(*resp)[k] = NewError(e)
 			}
 		}
 		return nil
-- 
2.43.0


From 6568b814c6e666ff33ecdddb48b573c6f475b665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 08/39] fix: give an HTTPError the body it is made from

---
 httperror.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httperror.go b/httperror.go
index b5b059a..c3ce8ab 100644
--- a/httperror.go
+++ b/httperror.go
@@ -15,6 +15,7 @@ func NewHTTPError(msg string, code int) *HTTPError {
 	return &HTTPError{
 		error:      errors.New(msg),
 		StatusCode: code,
+		Body:       msg,
 	}
 }
 
-- 
2.43.0


From 406448966698b37fa1666aa33be2a6bfcd4f9ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 09/39] fix: record the call statistics of the error that was
 returned

---
 gotsrpc.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 01345a7..ddd4925 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -13,6 +13,7 @@ import (
 	"path"
 	"path/filepath"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -95,15 +96,18 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 
 	w.Header().Set("Content-Type", clientHandle.contentType)
 
+	encoded := response
 	if clientHandle.beforeEncodeReply != nil {
-		if err := clientHandle.beforeEncodeReply(&response); err != nil {
+		// the caller and the stats keep the original values
+		encoded = slices.Clone(response)
+		if err := clientHandle.beforeEncodeReply(&encoded); err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, err.Error())
 			return errors.Wrap(err, "error during before encoder reply")
 		}
 	}
 
 	buf := new(bytes.Buffer)
-	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(response); err != nil {
+	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(encoded); err != nil {
 		_, _ = fmt.Fprintln(os.Stderr, err.Error())
 		return errors.Wrap(err, "could not encode data to accepted format")
 	}
-- 
2.43.0


From 56caeea9f5ac1ba2658f901e512e506d996c749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 10/39] fix: report the status that went out first

---
 responsewriter.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/responsewriter.go b/responsewriter.go
index 2fca722..69e77a2 100644
--- a/responsewriter.go
+++ b/responsewriter.go
@@ -11,11 +11,22 @@ type ResponseWriter struct {
 }
 
 func (r *ResponseWriter) WriteHeader(status int) {
-	r.status = status
-	r.wroteHeader = true
+	// only the first final status goes out, informational ones may precede it
+	if !r.wroteHeader && (status < 100 || status > 199 || status == http.StatusSwitchingProtocols) {
+		r.status = status
+		r.wroteHeader = true
+	}
 	r.ResponseWriter.WriteHeader(status)
 }
 
+func (r *ResponseWriter) Write(b []byte) (int, error) {
+	if !r.wroteHeader {
+		r.status = http.StatusOK
+		r.wroteHeader = true
+	}
+	return r.ResponseWriter.Write(b)
+}
+
 func (r *ResponseWriter) Status() int {
 	if !r.wroteHeader {
 		return http.StatusOK
-- 
2.43.0


From 78d9eec9ec1b90a656888954894a1220c0e36181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:41 +0000
Subject: [PATCH 11/39] fix: observe seconds as time_seconds

---
 prometheus/prometheus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prometheus/prometheus.go b/prometheus/prometheus.go
index 6cb2862..1607c3d 100644
--- a/prometheus/prometheus.go
+++ b/prometheus/prometheus.go
@@ -46,6 +46,6 @@ func InstrumentGoRPCService() gotsrpc.GoRPCCallStatsHandlerFun {
 	p.MustRegister(callsCounter)
 
 	return func(stats *gotsrpc.CallStats) {
-		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
+		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(stats.Execution.Seconds())
 	}
 }
-- 
2.43.0


From d1d3639e76d73159ff4abd69b64a250dedaebdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 12/39] fix: use the go.mod below an absolute module path

---
 config/config.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/config/config.go b/config/config.go
index d84cec9..bfffe09 100644
--- a/config/config.go
+++ b/config/config.go
@@ -73,17 +73,20 @@ func LoadConfigFile(file string) (conf *Config, err error) {
 		return nil, err
 	}
 
-	if conf.Module.Path != "" && !path.IsAbs(conf.Module.Path) {
-		absPath, err := filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))
-		if err != nil {
-			return nil, err
+	if conf.Module.Path != "" {
+		if !path.IsAbs(conf.Module.Path) {
+			absPath, err := filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))
+			if err != nil {
+				return nil, err
+			}
+			conf.Module.Path = absPath
 		}
-		conf.Module.Path = absPath
 
-		if data, err := os.ReadFile(path.Join(absPath, "go.mod")); err != nil && !os.IsNotExist(err) {
+		modFilename := path.Join(conf.Module.Path, "go.mod")
+		if data, err := os.ReadFile(modFilename); err != nil && !os.IsNotExist(err) {
 			return nil, err
 		} else if err == nil {
-			modFile, err := modfile.Parse(path.Join(absPath, "go.mod"), data, nil)
+			modFile, err := modfile.Parse(modFilename, data, nil)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 22241c60c9503a331b4a17774fa38818444d7fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 13/39] fix: reject empty targets and mappings

---
 config/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/config/config.go b/config/config.go
index bfffe09..4c91a55 100644
--- a/config/config.go
+++ b/config/config.go
@@ -103,7 +103,15 @@ func loadConfig(yamlBytes []byte) (conf *Config, err error) {
 		err = errors.New("could not parse yaml: " + yamlErr.Error())
 		return
 	}
+	for name, target := range conf.Targets {
+		if target == nil {
+			return nil, errors.New("target is empty: " + name)
+		}
+	}
 	for goPackage, mapping := range conf.Mappings {
+		if mapping == nil {
+			return nil, errors.New("mapping is empty: " + goPackage)
+		}
 		mapping.GoPackage = goPackage
 	}
 	return
-- 
2.43.0


From 0387608fdcc5b4be62ef258d02de84645d4d517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:52 +0000
Subject: [PATCH 14/39] fix: take module paths as prefixes of whole path
 elements

---
 build.go   | 2 +-
 gotsrpc.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index efcf0f7..9b937e1 100644
--- a/build.go
+++ b/build.go
@@ -55,7 +55,7 @@ func commonJSImports(conf *config.Config, c *code, tsFilename string, code strin
 }
 
 func getPathForTarget(gomod config.Namespace, goPath string, target *config.Target) (outputPath string) {
-	if gomod.Name != "" && strings.HasPrefix(target.Package, gomod.Name) {
+	if isInModule(target.Package, gomod.Name) {
 		relative := strings.TrimPrefix(target.Package, gomod.Name)
 		return path.Join(gomod.Path, relative)
 	} else {
diff --git a/gotsrpc.go b/gotsrpc.go
index ddd4925..a9d8db0 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -144,8 +144,13 @@ func parserExcludeFiles(info os.FileInfo) bool {
 	return !strings.HasSuffix(info.Name(), "_test.go")
 }
 
+// isInModule tells whether the package is the root package of the module or below it
+func isInModule(packageName string, modulePath string) bool {
+	return modulePath != "" && (packageName == modulePath || strings.HasPrefix(packageName, modulePath+"/"))
+}
+
 func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
-	if gomod.Name != "" && strings.HasPrefix(packageName, gomod.Name) {
+	if isInModule(packageName, gomod.Name) {
 		fset := token.NewFileSet()
 		dir := strings.Replace(packageName, gomod.Name, gomod.Path, 1)
 		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.DeclarationErrors|parser.AllErrors)
-- 
2.43.0


From 85d7644fa78d7728c93c785dffc929f6fe7efde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 15/39] fix: look packages up in the module the go command
 takes them from

---
 gotsrpc.go | 54 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index a9d8db0..5b6bb79 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -21,6 +21,7 @@ import (
 
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
+	"golang.org/x/mod/module"
 
 	"github.com/foomo/gotsrpc/v2/config"
 )
@@ -149,6 +150,15 @@ func isInModule(packageName string, modulePath string) bool {
 	return modulePath != "" && (packageName == modulePath || strings.HasPrefix(packageName, modulePath+"/"))
 }
 
+// moduleCacheDir is the directory of the module in the module cache
+func moduleCacheDir(mod module.Version) string {
+	modulePath, err := module.EscapePath(mod.Path)
+	if err != nil {
+		return mod.String()
+	}
+	return modulePath + "@" + mod.Version
+}
+
 func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
 	if isInModule(packageName, gomod.Name) {
 		fset := token.NewFileSet()
@@ -162,25 +172,35 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 		var dir string
 		fset := token.NewFileSet()
 		if gomod.ModFile != nil {
-			for _, rep := range gomod.ModFile.Replace {
-				if packageName == rep.Old.Path || strings.HasPrefix(packageName, rep.Old.Path+"/") {
-					if strings.HasPrefix(rep.New.String(), ".") || strings.HasPrefix(rep.New.Path, "/") {
-						trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.Replace(packageName, rep.Old.Path, filepath.Join(gomod.Path, rep.New.Path), 1)
-					} else {
-						trace("replacing package", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", rep.New.String(), strings.TrimPrefix(packageName, rep.Old.Path)), "/")
-					}
-					break
+			// the module with the longest path has the package
+			var mod module.Version
+			for _, req := range gomod.ModFile.Require {
+				if isInModule(packageName, req.Mod.Path) && len(req.Mod.Path) > len(mod.Path) {
+					trace("resolving mod package", packageName, req.Mod.String())
+					mod = req.Mod
+					dir = path.Join(goPath, "pkg", "mod", moduleCacheDir(mod), strings.TrimPrefix(packageName, mod.Path))
 				}
 			}
-			if dir == "" {
-				for _, req := range gomod.ModFile.Require {
-					if packageName == req.Mod.Path || strings.HasPrefix(packageName, req.Mod.Path+"/") {
-						trace("resolving mod package", packageName, req.Mod.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", req.Mod.String(), strings.TrimPrefix(packageName, req.Mod.Path)), "/")
-						break
-					}
+			for _, rep := range gomod.ModFile.Replace {
+				if !isInModule(packageName, rep.Old.Path) || len(rep.Old.Path) < len(mod.Path) {
+					continue
+				} else if rep.Old.Path == mod.Path && rep.Old.Version != "" && rep.Old.Version != mod.Version {
+					continue
+				}
+				if rep.Old.Path != mod.Path {
+					mod = rep.Old
+				}
+				relative := strings.TrimPrefix(packageName, rep.Old.Path)
+				switch {
+				case rep.New.Version != "":
+					trace("replacing package", packageName, rep.Old.String(), rep.New.String())
+					dir = path.Join(goPath, "pkg", "mod", moduleCacheDir(rep.New), relative)
+				case filepath.IsAbs(rep.New.Path):
+					trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
+					dir = path.Join(rep.New.Path, relative)
+				default:
+					trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
+					dir = path.Join(gomod.Path, rep.New.Path, relative)
 				}
 			}
 		}
-- 
2.43.0


From 9389fc945218e0d1da0e49598e58547d97c7c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 16/39] fix: let errors.Cause of a transported error end

---
 error.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 4709aa7..86e77d3 100644
--- a/error.go
+++ b/error.go
@@ -40,6 +40,9 @@ func NewError(err error) *Error {
 	if v, ok := err.(*Error); ok { //nolint:errorlint
 		return v
 	}
+	if v, ok := err.(rootError); ok { //nolint:errorlint
+		return v.err
+	}
 
 	// retrieve error details
 	errType := reflect.TypeOf(err)
@@ -94,7 +97,22 @@ func (e *Error) Cause() error {
 	if e.ErrCause != nil {
 		return e.ErrCause
 	}
-	return e
+	return rootError{err: e}
+}
+
+// rootError is the root cause of a transported error, it ends the search of errors.Cause
+type rootError struct {
+	err *Error
+}
+
+// Unwrap interface
+func (e rootError) Unwrap() error {
+	return e.err
+}
+
+// Error interface
+func (e rootError) Error() string {
+	return e.err.Error()
 }
 
 // Format interface
-- 
2.43.0


From 496c03a39561d56e36f91745900e8a05478b8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:23 +0000
Subject: [PATCH 17/39] fix: expose exported methods only, in any script

---
 servicereader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 0349c07..b14df98 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -37,8 +37,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 					if starExpr, ok := firstReceiverField.Type.(*ast.StarExpr); ok {
 						if ident, ok := starExpr.X.(*ast.Ident); ok {
 							service, ok := findService(ident.Name)
-							firstCharOfMethodName := funcDecl.Name.Name[0:1]
-							if !ok || strings.ToLower(firstCharOfMethodName) == firstCharOfMethodName {
+							if !ok || !funcDecl.Name.IsExported() {
 								// skip this method
 								continue
 							}
@@ -73,6 +72,9 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 										continue
 									}
 									mname := fieldDecl.Names[0]
+									if !mname.IsExported() {
+										continue
+									}
 									trace(" on sth:", mname.Name)
 									// fmt.Println("interface:", ident.Name, "method:", mname.Name)
 									service.Methods = append(service.Methods, &Method{
-- 
2.43.0


From f5822bcf44855f06a09a5f3830a5efebe7ecdc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:39 +0000
Subject: [PATCH 18/39] fix: tell exported fields and types in any script

---
 typereader.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/typereader.go b/typereader.go
index 04c34a4..0784579 100644
--- a/typereader.go
+++ b/typereader.go
@@ -165,7 +165,7 @@ func readAstType(v *Value, fieldIdent *ast.Ident, fileImports fileImportSpecMap,
 			Name:    structType,
 			Package: fileImports.getPackagePath(packageName),
 		}
-	} else if fieldIdent.Name[:1] == strings.ToUpper(fieldIdent.Name[:1]) {
+	} else if fieldIdent.IsExported() {
 		v.Scalar = &Scalar{
 			Package: fileImports.getPackagePath(packageName),
 			Name:    fieldIdent.Name,
@@ -344,8 +344,7 @@ func readFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap) (field
 						})
 						continue
 					}
-				} else if strings.Compare(strings.ToLower(name[:1]), name[:1]) == 0 {
-					// this is not unicode proof
+				} else if !ast.IsExported(name) {
 					continue
 				} else if jsonInfo != nil && jsonInfo.Union {
 					unionFields = append(unionFields, &Field{
-- 
2.43.0


From a02469d92a440097e2e81173c0bf9bcd7d1bed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 19/39] fix: quote property names that are not identifiers

---
 typescript.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index affc3d4..342d23c 100644
--- a/typescript.go
+++ b/typescript.go
@@ -4,7 +4,9 @@ import (
 	"errors"
 	"go/ast"
 	"sort"
+	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/iancoleman/strcase"
 
@@ -19,6 +21,16 @@ func (f *Field) tsName() string {
 	return n
 }
 
+// tsPropertyName quotes names, that are not identifiers
+func tsPropertyName(name string) string {
+	for i, r := range name {
+		if r != '_' && r != '$' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
+			return strconv.Quote(name)
+		}
+	}
+	return name
+}
+
 var tsTypeAliases = map[string]string{
 	"time.Time": "number",
 }
@@ -121,7 +133,7 @@ func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, sca
 		} else if f.JSONInfo != nil && f.JSONInfo.Ignore {
 			continue
 		}
-		ts.app(f.tsName())
+		ts.app(tsPropertyName(f.tsName()))
 		if f.JSONInfo != nil && f.JSONInfo.OmitEmpty {
 			ts.app("?")
 		}
-- 
2.43.0


From 498b279a7d5ac9ead3153cd31920332292a080e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 20/39] fix: name struct fields in TypeScript as their tags
 name them when sent

---
 typereader.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/typereader.go b/typereader.go
index 0784579..3dce7f5 100644
--- a/typereader.go
+++ b/typereader.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"os"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"gopkg.in/yaml.v2"
@@ -59,15 +60,18 @@ func traceData(args ...interface{}) {
 func extractJSONInfo(tag string) *JSONInfo {
 	structTag := reflect.StructTag(tag)
 
-	jsonTags := strings.Split(structTag.Get("json"), ",")
+	// a codec tag takes precedence when encoding
+	jsonTag := structTag.Get("codec")
+	if jsonTag == "" {
+		jsonTag = structTag.Get("json")
+	}
+
+	jsonTags := strings.Split(jsonTag, ",")
 	gotsrpcTags := strings.Split(structTag.Get("gotsrpc"), ",")
 	if len(jsonTags) == 0 && len(gotsrpcTags) == 0 {
 		return nil
 	}
 
-	for k, value := range jsonTags {
-		jsonTags[k] = strings.TrimSpace(value)
-	}
 	for k, value := range gotsrpcTags {
 		gotsrpcTags[k] = strings.TrimSpace(value)
 	}
@@ -80,10 +84,8 @@ func extractJSONInfo(tag string) *JSONInfo {
 	ignore := false
 
 	if len(jsonTags) > 0 {
-		switch jsonTags[0] {
-		case "":
-			// do nothing
-		case "-":
+		switch {
+		case jsonTag == "-":
 			ignore = true
 		default:
 			name = jsonTags[0]
@@ -319,11 +321,26 @@ func readField(astField *ast.Field, fileImports fileImportSpecMap) (names []stri
 	v = &Value{}
 	v.loadExpr(astField.Type, fileImports)
 	if astField.Tag != nil {
-		jsonInfo = extractJSONInfo(astField.Tag.Value[1 : len(astField.Tag.Value)-1])
+		if tag, err := strconv.Unquote(astField.Tag.Value); err == nil {
+			jsonInfo = extractJSONInfo(tag)
+		}
 	}
 	return
 }
 
+func embeddedFieldName(expr ast.Expr) string {
+	switch exprType := expr.(type) {
+	case *ast.StarExpr:
+		return embeddedFieldName(exprType.X)
+	case *ast.SelectorExpr:
+		return exprType.Sel.Name
+	case *ast.Ident:
+		return exprType.Name
+	default:
+		return ""
+	}
+}
+
 func readFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap) (fields []*Field, inlineFields []*Field, unionFields []*Field) {
 	fields = []*Field{}
 	for _, field := range fieldList {
@@ -344,6 +361,12 @@ func readFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap) (field
 						})
 						continue
 					}
+					if jsonInfo.Name != "" {
+						// an embedded field with a name is sent like any other
+						if name = embeddedFieldName(field.Type); !ast.IsExported(name) {
+							continue
+						}
+					}
 				} else if !ast.IsExported(name) {
 					continue
 				} else if jsonInfo != nil && jsonInfo.Union {
-- 
2.43.0


From 50184107e115349efe31a1c5015e446f31badd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 21/39] fix: qualify types of packages named like the generated
 one

---
 go.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go.go b/go.go
index c5949fd..7340f33 100644
--- a/go.go
+++ b/go.go
@@ -217,7 +217,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 
 				for _, arg := range nonHTTPRelatedArgs {
 					argName := "arg_" + arg.Name
-					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, packageName))
+					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, fullPackageName))
 					args = append(args, "&"+argName)
 					callArgs = append(callArgs, argName)
 					skipArgI++
-- 
2.43.0


From 71d23e534a736ef2d182353d308880c6419c299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 22/39] fix: name interface types of the service package

---
 servicereader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/servicereader.go b/servicereader.go
index b14df98..ff99596 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -422,8 +422,13 @@ func fixFieldStructs(fields []*Field, structs map[string]*Struct, scalars map[st
 			}
 			scalar, scalarExists := scalars[name]
 			if scalarExists {
+				f.Value.Scalar = &Scalar{
+					Name:    f.Value.StructType.Name,
+					Package: f.Value.StructType.Package,
+					Type:    scalar.Type,
+				}
+				f.Value.ScalarType = ScalarType(f.Value.StructType.Name)
 				f.Value.StructType = nil
-				f.Value.Scalar = scalar
 			}
 		}
 	}
-- 
2.43.0


From 3d3494af4722dacdea202f47da23d58f471c3d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 23/39] fix: describe bytes, runes and errors as they are sent

---
 servicereader.go |  6 +++---
 typereader.go    |  8 ++++----
 typescript.go    | 26 +++++++++++++++-----------
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index ff99596..d2de158 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -211,13 +211,13 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 								constantTypes[spec.Name.Name] = "any"
 							case *ast.Ident:
 								switch specType.Name {
-								case "byte":
-									constantTypes[spec.Name.Name] = "any"
 								case "string":
 									constantTypes[spec.Name.Name] = "string"
 								case "bool":
 									constantTypes[spec.Name.Name] = "boolean"
-								case "float", "float32", "float64",
+								case "any", "error":
+									constantTypes[spec.Name.Name] = "any"
+								case "byte", "float", "float32", "float64", "rune", "uintptr",
 									"int", "int8", "int16", "int32", "int64",
 									"uint", "uint8", "uint16", "uint32", "uint64":
 									constantTypes[spec.Name.Name] = "number"
diff --git a/typereader.go b/typereader.go
index 3dce7f5..b345dbb 100644
--- a/typereader.go
+++ b/typereader.go
@@ -124,17 +124,17 @@ func extractJSONInfo(tag string) *JSONInfo {
 
 func getScalarFromAstIdent(ident *ast.Ident) ScalarType {
 	switch ident.Name {
-	case "any", "interface":
+	case "any", "interface", "error":
 		return ScalarTypeAny
 	case "string":
 		return ScalarTypeString
 	case "bool":
 		return ScalarTypeBool
-	case "byte":
+	case "byte", "uint8":
 		return ScalarTypeByte
-	case "float", "float32", "float64",
+	case "float", "float32", "float64", "rune", "uintptr",
 		"int", "int8", "int16", "int32", "int64",
-		"uint", "uint8", "uint16", "uint32", "uint64":
+		"uint", "uint16", "uint32", "uint64":
 		return ScalarTypeNumber
 	default:
 		if ident.Obj != nil && ident.Obj.Decl != nil && reflect.ValueOf(ident.Obj.Decl).Type().String() == "*ast.TypeSpec" {
diff --git a/typescript.go b/typescript.go
index 342d23c..d33c06e 100644
--- a/typescript.go
+++ b/typescript.go
@@ -53,13 +53,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 			ts.app("|null")
 		}
 	case v.Array != nil:
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app("Array<")
-		}
-		v.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app(">")
-		}
+		v.Array.tsType(mappings, scalars, structs, ts)
 		if jsonInfo == nil || !jsonInfo.OmitEmpty {
 			ts.app("|null")
 		}
@@ -116,10 +110,21 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 	}
 }
 
+func (a *Array) tsType(mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
+	if a.Value.ScalarType == ScalarTypeByte && !a.Value.IsPtr {
+		// bytes are sent in base64
+		ts.app("string")
+		return
+	}
+	ts.app("Array<")
+	a.Value.tsType(mappings, scalars, structs, ts, nil)
+	ts.app(">")
+}
+
 func tsTypeFromScalarType(scalarType ScalarType) string {
 	switch scalarType { //nolint:exhaustive
 	case ScalarTypeByte:
-		return "string"
+		return "number"
 	case ScalarTypeBool:
 		return "boolean"
 	}
@@ -148,9 +153,8 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 	ts.l("// " + str.FullName())
 	switch {
 	case str.Array != nil:
-		ts.app("export type " + str.Name + " = Array<")
-		str.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		ts.app(">")
+		ts.app("export type " + str.Name + " = ")
+		str.Array.tsType(mappings, scalars, structs, ts)
 		ts.nl()
 	case str.Map != nil:
 		ts.app("export type " + str.Name + " = Record<")
-- 
2.43.0


From fcf66a7f24bf8080292fc2efc474099a2637192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 24/39] fix: let slices and maps of types declared elsewhere be
 null

---
 typescript.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index d33c06e..1566fb6 100644
--- a/typescript.go
+++ b/typescript.go
@@ -69,7 +69,10 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 				tsType = value
 			}
 			ts.app(tsType)
-			if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
+			hiddenStruct, isHiddenStruct := structs[v.Scalar.FullName()]
+			if isHiddenStruct && (hiddenStruct.Array != nil || hiddenStruct.Map != nil) && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
+				ts.app("|null")
+			} else if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
 				ts.app("|null")
 			}
 			return
-- 
2.43.0


From d5afbbb216427eb6b4673a36233fdaeaf410ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 25/39] fix: keep variables of generated code apart from
 parameters and results

---
 go.go | 85 +++++++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 68 insertions(+), 17 deletions(-)

diff --git a/go.go b/go.go
index 7340f33..e0f83f1 100644
--- a/go.go
+++ b/go.go
@@ -2,6 +2,7 @@ package gotsrpc
 
 import (
 	"fmt"
+	"go/ast"
 	"sort"
 	"strings"
 
@@ -69,6 +70,23 @@ func strfirst(str string, strfunc func(string) string) string {
 	return res
 }
 
+// uniqueName appends underscores to a name, that is taken
+func uniqueName(name string, taken map[string]bool) string {
+	for taken[name] {
+		name += "_"
+	}
+	taken[name] = true
+	return name
+}
+
+func namesTaken(names ...string) map[string]bool {
+	taken := make(map[string]bool, len(names))
+	for _, name := range names {
+		taken[name] = true
+	}
+	return taken
+}
+
 func extractImport(packageName string, fullPackageName string, aliases map[string]string) {
 	r := strings.NewReplacer(".", "_", "/", "_", "-", "_")
 	if packageName != fullPackageName {
@@ -238,6 +256,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 				}
 			}
 			var returnValueNames []string
+			takenNames := namesTaken("args", "rets", "callStats", "executionStart")
 			for retI, retField := range method.Return {
 				retArgName := retField.Name
 				if len(retArgName) == 0 {
@@ -246,7 +265,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 						retArgName += "_" + fmt.Sprint(retI)
 					}
 				}
-				returnValueNames = append(returnValueNames, lcfirst(method.Name)+ucfirst(retArgName))
+				returnValueNames = append(returnValueNames, uniqueName(lcfirst(method.Name)+ucfirst(retArgName), takenNames))
 			}
 			g.l("executionStart := time.Now()")
 			if isSessionRequest {
@@ -297,9 +316,11 @@ func newMethodSignature(method *Method, aliases map[string]string, fullPackageNa
 	var args []string
 	var params []string
 	params = append(params, "ctx go_context.Context")
+	takenNames := namesTaken("tsc", "ctx", "args", "reply", "clientErr", "pkg_errors")
 	for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-		args = append(args, a.Name)
-		params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
+		name := uniqueName(a.Name, takenNames)
+		args = append(args, name)
+		params = append(params, name+" "+a.Value.goType(aliases, fullPackageName))
 	}
 	var rets []string
 	var returns []string
@@ -308,6 +329,7 @@ func newMethodSignature(method *Method, aliases map[string]string, fullPackageNa
 		if len(name) == 0 {
 			name = fmt.Sprintf("ret%s_%d", method.Name, i)
 		}
+		name = uniqueName(name, takenNames)
 		rets = append(rets, "&"+name)
 		returns = append(returns, name+" "+r.Value.goType(aliases, fullPackageName))
 	}
@@ -458,18 +480,15 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 		for _, method := range service.Methods {
 			// Request type
 			g.l(ucfirst(service.Name+method.Name) + `Request struct {`)
-			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-				g.l(ucfirst(a.Name) + ` ` + a.Value.goType(aliases, fullPackageName))
+			argFields, retFields := goRPCFieldNames(method)
+			for i, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
+				g.l(argFields[i] + ` ` + a.Value.goType(aliases, fullPackageName))
 			}
 			g.l(`}`)
 			// Response type
 			g.l(ucfirst(service.Name+method.Name) + `Response struct {`)
 			for i, r := range method.Return {
-				name := r.Name
-				if len(name) == 0 {
-					name = fmt.Sprintf("ret%s_%d", method.Name, i)
-				}
-				g.l(ucfirst(name) + ` ` + r.Value.goType(aliases, fullPackageName))
+				g.l(retFields[i] + ` ` + r.Value.goType(aliases, fullPackageName))
 			}
 			g.l(`}`)
 			g.nl()
@@ -532,18 +551,21 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 			for i := 0; i < diffNONHTTPRelatedMethodArgs; i++ {
 				argParams = append(argParams, "nil")
 			}
-			for _, a := range nonHTTPRelatedMethodArgs {
-				argParams = append(argParams, "req."+ucfirst(a.Name))
+			argFields, retFields := goRPCFieldNames(method)
+			for i := range nonHTTPRelatedMethodArgs {
+				argParams = append(argParams, "req."+argFields[i])
 			}
 			rets := []string{}
 			retParams := []string{}
+			takenNames := namesTaken("req", "request", "response")
 			for i, r := range method.Return {
 				name := r.Name
 				if len(name) == 0 {
 					name = fmt.Sprintf("ret%s_%d", method.Name, i)
 				}
+				name = uniqueName(name, takenNames)
 				rets = append(rets, name)
-				retParams = append(retParams, ucfirst(name)+`: `+name)
+				retParams = append(retParams, retFields[i]+`: `+name)
 			}
 			g.l(`case "` + service.Name + method.Name + `Request":`)
 			if len(nonHTTPRelatedMethodArgs) > 0 {
@@ -635,9 +657,12 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 		for _, method := range service.Methods {
 			args := []string{}
 			params := []string{}
-			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-				args = append(args, ucfirst(a.Name)+`: `+a.Name)
-				params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
+			argFields, retFields := goRPCFieldNames(method)
+			takenNames := namesTaken("tsc", "req", "response", "rpcCallRes", "rpcCallErr", "clientErr")
+			for i, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
+				name := uniqueName(a.Name, takenNames)
+				args = append(args, argFields[i]+`: `+name)
+				params = append(params, name+" "+a.Value.goType(aliases, fullPackageName))
 			}
 			rets := []string{}
 			returns := []string{}
@@ -646,7 +671,8 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 				if len(name) == 0 {
 					name = fmt.Sprintf("ret%s_%d", method.Name, i)
 				}
-				rets = append(rets, "response."+ucfirst(name))
+				name = uniqueName(name, takenNames)
+				rets = append(rets, "response."+retFields[i])
 				returns = append(returns, name+" "+r.Value.goType(aliases, fullPackageName))
 			}
 			returns = append(returns, "clientErr error")
@@ -674,6 +700,31 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 	return nil
 }
 
+// goRPCFieldNames are the names of the fields of the request and the response of a method
+func goRPCFieldNames(method *Method) (argFields []string, retFields []string) {
+	fieldName := func(name string, taken map[string]bool) string {
+		name = ucfirst(name)
+		if !ast.IsExported(name) {
+			// or else it would not be sent
+			name = "X" + name
+		}
+		return uniqueName(name, taken)
+	}
+	takenNames := namesTaken()
+	for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
+		argFields = append(argFields, fieldName(a.Name, takenNames))
+	}
+	takenNames = namesTaken()
+	for i, r := range method.Return {
+		name := r.Name
+		if len(name) == 0 {
+			name = fmt.Sprintf("ret%s_%d", method.Name, i)
+		}
+		retFields = append(retFields, fieldName(name, takenNames))
+	}
+	return
+}
+
 func RenderGoTSRPCProxies(services ServiceList, longPackageName, packageName string, config *config.Target, unions map[string][]string) (gocode string, err error) {
 	g := newCode("	")
 	err = renderTSRPCServiceProxies(services, longPackageName, packageName, config, unions, g)
-- 
2.43.0


From 981c13934527e0116bff2f268f1434d550d70565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 26/39] fix: name parameters that have no name

---
 servicereader.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index d2de158..6cf2078 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -46,8 +46,8 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 
 							service.Methods = append(service.Methods, &Method{
 								Name:   funcDecl.Name.Name,
-								Args:   readFields(funcDecl.Type.Params, fileImports),
-								Return: readFields(funcDecl.Type.Results, fileImports),
+								Args:   readArgs(funcDecl.Type.Params, fileImports),
+								Return: readReturns(funcDecl.Type.Results, fileImports),
 							})
 						}
 					}
@@ -79,8 +79,8 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 									// fmt.Println("interface:", ident.Name, "method:", mname.Name)
 									service.Methods = append(service.Methods, &Method{
 										Name:   mname.Name,
-										Args:   readFields(funcDecl.Params, fileImports),
-										Return: readFields(funcDecl.Results, fileImports),
+										Args:   readArgs(funcDecl.Params, fileImports),
+										Return: readReturns(funcDecl.Results, fileImports),
 									})
 								}
 							}
@@ -164,6 +164,32 @@ func readFields(fieldList *ast.FieldList, fileImports fileImportSpecMap) (fields
 	return
 }
 
+// readArgs reads parameters, those without a name get one
+func readArgs(fieldList *ast.FieldList, fileImports fileImportSpecMap) []*Field {
+	args := readFields(fieldList, fileImports)
+	taken := map[string]bool{}
+	for _, arg := range args {
+		taken[arg.Name] = true
+	}
+	for i, arg := range args {
+		if arg.Name == "" || arg.Name == "_" {
+			arg.Name = uniqueName(fmt.Sprintf("arg_%d", i), taken)
+		}
+	}
+	return args
+}
+
+// readReturns reads results, blank ones have no name
+func readReturns(fieldList *ast.FieldList, fileImports fileImportSpecMap) []*Field {
+	returns := readFields(fieldList, fileImports)
+	for _, ret := range returns {
+		if ret.Name == "_" {
+			ret.Name = ""
+		}
+	}
+	return returns
+}
+
 func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[string]string) (services ServiceList, err error) {
 	if pkg == nil {
 		return nil, errors.New("package cannot be nil")
-- 
2.43.0


From 3348d9f88ef02b1be32bec4ca60642822a9a7f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 27/39] fix: keep TypeScript parameters apart from reserved
 words

---
 typscriptclient.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/typscriptclient.go b/typscriptclient.go
index 78b171f..1dad530 100644
--- a/typscriptclient.go
+++ b/typscriptclient.go
@@ -8,6 +8,13 @@ import (
 	"github.com/foomo/gotsrpc/v2/config"
 )
 
+var tsReservedWords = []string{
+	"arguments", "await", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do",
+	"else", "enum", "eval", "export", "extends", "false", "finally", "for", "function", "if", "implements", "import",
+	"in", "instanceof", "interface", "let", "new", "null", "package", "private", "protected", "public", "return",
+	"static", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "yield",
+}
+
 func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) error {
 	clientName := service.Name + "Client"
 
@@ -40,6 +47,7 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 			}
 		}
 		argCount := 0
+		takenNames := namesTaken(append(tsReservedWords, "response")...)
 		for index, arg := range method.Args {
 			if index < argOffset {
 				continue
@@ -47,10 +55,11 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 			if index > argOffset {
 				ts.app(", ")
 			}
-			ts.app(arg.tsName())
+			argName := uniqueName(arg.tsName(), takenNames)
+			ts.app(argName)
 			ts.app(":")
 			arg.Value.tsType(mappings, scalars, structs, ts, arg.JSONInfo)
-			callArgs = append(callArgs, arg.Name)
+			callArgs = append(callArgs, argName)
 			argCount++
 		}
 		ts.app("):")
-- 
2.43.0


From 2d2c6bdaf20ac93058b5512dfcb83f7ddb30c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 28/39] fix: write included types, when the first target has no
 TypeScript

---
 build.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 9b937e1..757812c 100644
--- a/build.go
+++ b/build.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"go/format"
+	"maps"
 	"os"
 	"path"
 	"path/filepath"
@@ -126,7 +127,13 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 			goPaths = append(goPaths, vendorDirectory)
 		}
 
-		pkgName, services, structs, scalars, constantTypes, err := Read(goPaths, conf.Module, packageName, target.Services, missingTypes, missingConstants)
+		targetTypes, targetConstants := missingTypes, missingConstants
+		if target.Out == "" {
+			// leave the included ones to a target, that writes them
+			targetTypes, targetConstants = maps.Clone(missingTypes), maps.Clone(missingConstants)
+		}
+
+		pkgName, services, structs, scalars, constantTypes, err := Read(goPaths, conf.Module, packageName, target.Services, targetTypes, targetConstants)
 		if err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, "\t an error occurred while trying to understand your code: ", err)
 			os.Exit(2)
-- 
2.43.0


From 29ac5cf8ee6a470cbc9056bd2f609459a5c0dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 29/39] fix: describe unions of structs declared elsewhere

---
 typescript.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index 1566fb6..899df5a 100644
--- a/typescript.go
+++ b/typescript.go
@@ -175,8 +175,13 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 		if len(str.Fields) > 0 || len(str.InlineFields) > 0 {
 			return errors.New("no fields or inline fields are supported when using union")
 		}
+		isStruct := str.UnionFields[0].Value.StructType != nil
+		if scalar := str.UnionFields[0].Value.Scalar; scalar != nil {
+			// declared elsewhere
+			_, isStruct = structs[scalar.FullName()]
+		}
 		switch {
-		case str.UnionFields[0].Value.StructType != nil:
+		case isStruct:
 			ts.app("export type " + str.Name + " = ")
 			var isUndefined bool
 			for i, unionField := range str.UnionFields {
-- 
2.43.0


From 0cb0382335b31850b15e057e3d756be197438fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 30/39] fix: find the types of fields of anonymous structs

---
 servicereader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 6cf2078..837a290 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -592,6 +592,15 @@ func needsWorkValue(value *Value, needsWork func(fullName string) bool) bool {
 		if needsWorkValue(value.Map.Key, needsWork) || needsWorkValue(value.Map.Value, needsWork) {
 			return true
 		}
+	case value.Struct != nil:
+		// anonymous
+		for _, fields := range [][]*Field{value.Struct.Fields, value.Struct.InlineFields, value.Struct.UnionFields} {
+			for _, field := range fields {
+				if needsWorkValue(field.Value, needsWork) {
+					return true
+				}
+			}
+		}
 	}
 	return false
 }
-- 
2.43.0


From e659da0ff2df4aea1206db46e22e3a8efc02bce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 31/39] fix: describe types declared by other types and
 unexported ones

---
 model.go         |  2 ++
 servicereader.go |  3 +++
 typereader.go    | 24 +++++++++++++++++++++++-
 typescript.go    |  7 ++++++-
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index 0d51681..dc93fda 100644
--- a/model.go
+++ b/model.go
@@ -86,6 +86,8 @@ type Struct struct {
 	InlineFields []*Field
 	Map          *Map
 	Array        *Array
+	// Type is the named type, that the type is declared by
+	Type *Value
 }
 
 type Scalar struct {
diff --git a/servicereader.go b/servicereader.go
index 837a290..d362d06 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -678,6 +678,9 @@ func (s *Struct) DepsSatisfied(missingTypes map[string]bool, structs map[string]
 			return false
 		}
 	}
+	if s.Type != nil && needsWorkValue(s.Type, needsWork) {
+		return false
+	}
 	if s.Map != nil {
 		if s.Map.Key != nil && needsWorkValue(s.Map.Key, needsWork) {
 			return false
diff --git a/typereader.go b/typereader.go
index b345dbb..4e12847 100644
--- a/typereader.go
+++ b/typereader.go
@@ -122,6 +122,17 @@ func extractJSONInfo(tag string) *JSONInfo {
 	}
 }
 
+func isPredeclaredType(name string) bool {
+	switch name {
+	case "any", "bool", "byte", "comparable", "complex64", "complex128", "error", "float32", "float64",
+		"int", "int8", "int16", "int32", "int64", "rune", "string",
+		"uint", "uint8", "uint16", "uint32", "uint64", "uintptr":
+		return true
+	default:
+		return false
+	}
+}
+
 func getScalarFromAstIdent(ident *ast.Ident) ScalarType {
 	switch ident.Name {
 	case "any", "interface", "error":
@@ -167,7 +178,7 @@ func readAstType(v *Value, fieldIdent *ast.Ident, fileImports fileImportSpecMap,
 			Name:    structType,
 			Package: fileImports.getPackagePath(packageName),
 		}
-	} else if fieldIdent.IsExported() {
+	} else if !isPredeclaredType(fieldIdent.Name) {
 		v.Scalar = &Scalar{
 			Package: fileImports.getPackagePath(packageName),
 			Name:    fieldIdent.Name,
@@ -439,6 +450,17 @@ func extractTypes(file *ast.File, packageName string, structs map[string]*Struct
 						Type:    ScalarTypeAny,
 					}
 				case *ast.Ident:
+					typeValue := &Value{}
+					typeValue.loadExpr(typeSpecType, fileImports)
+					if typeValue.Scalar != nil || typeValue.StructType != nil {
+						trace("Named type", obj.Name)
+						structs[structName] = &Struct{
+							Name:    name,
+							Package: packageName,
+							Type:    typeValue,
+						}
+						continue
+					}
 					trace("Scalar", obj.Name)
 					scalars[structName] = &Scalar{
 						Name:    structName,
diff --git a/typescript.go b/typescript.go
index 899df5a..60b4913 100644
--- a/typescript.go
+++ b/typescript.go
@@ -159,6 +159,10 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 		ts.app("export type " + str.Name + " = ")
 		str.Array.tsType(mappings, scalars, structs, ts)
 		ts.nl()
+	case str.Type != nil:
+		ts.app("export type " + str.Name + " = ")
+		str.Type.tsType(mappings, scalars, structs, ts, nil)
+		ts.nl()
 	case str.Map != nil:
 		ts.app("export type " + str.Name + " = Record<")
 		if str.Map.Key != nil {
@@ -178,7 +182,8 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 		isStruct := str.UnionFields[0].Value.StructType != nil
 		if scalar := str.UnionFields[0].Value.Scalar; scalar != nil {
 			// declared elsewhere
-			_, isStruct = structs[scalar.FullName()]
+			strct, ok := structs[scalar.FullName()]
+			isStruct = ok && strct.Type == nil
 		}
 		switch {
 		case isStruct:
-- 
2.43.0


From d43c84f79f1befa8db2b4f2ffe67a0b9a3c8f519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 32/39] fix: read the files of a package in order

Types and constants declared once per build constraint were described by
a random one of their declarations.
---
 servicereader.go | 25 ++++++++++++++++---------
 typereader.go    |  2 +-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index d362d06..6435f9c 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -202,14 +202,7 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 			Endpoint: endpoint,
 		})
 	}
-	pkgFiles := make([]string, 0, len(pkg.Files))
-	for k := range pkg.Files {
-		pkgFiles = append(pkgFiles, k)
-	}
-	sort.Strings(pkgFiles)
-
-	for _, k := range pkgFiles {
-		file := pkg.Files[k]
+	for _, file := range sortedFiles(pkg) {
 		err = readServiceFile(file, packageName, services)
 		if err != nil {
 			return
@@ -219,9 +212,23 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 	return
 }
 
+// sortedFiles are the files of a package sorted by name
+func sortedFiles(pkg *ast.Package) []*ast.File {
+	names := make([]string, 0, len(pkg.Files))
+	for name := range pkg.Files {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	files := make([]*ast.File, 0, len(names))
+	for _, name := range names {
+		files = append(files, pkg.Files[name])
+	}
+	return files
+}
+
 func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 	constantTypes := map[string]interface{}{}
-	for _, file := range pkg.Files {
+	for _, file := range sortedFiles(pkg) {
 		for _, decl := range file.Decls {
 			if genDecl, ok := decl.(*ast.GenDecl); ok {
 				switch genDecl.Tok { //nolint:exhaustive
diff --git a/typereader.go b/typereader.go
index 4e12847..8b080b6 100644
--- a/typereader.go
+++ b/typereader.go
@@ -18,7 +18,7 @@ func readStructs(pkg *ast.Package, packageName string) (structs map[string]*Stru
 	trace("reading files in package", packageName)
 	scalars = map[string]*Scalar{}
 	errorTypes := map[string]bool{}
-	for _, file := range pkg.Files {
+	for _, file := range sortedFiles(pkg) {
 		err = extractTypes(file, packageName, structs, scalars)
 		if err != nil {
 			return
-- 
2.43.0


From b49c472291feed4f6aac8f3d8207e33d8430ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 33/39] fix: enums have all constants with their values under
 valid names

Negative constants, constants declared by repetition and all but one of
several declared in one specification were missing; names that repeat
their type's name or go on with a digit and names that differ in
punctuation only gave invalid or duplicate members; character, octal and
raw string literals had another value in TypeScript or were invalid.
---
 servicereader.go | 37 ++++++++++++++++++++++++++++++-------
 typescript.go    | 39 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 67 insertions(+), 9 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 6435f9c..4070521 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -264,17 +264,25 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 					}
 				case token.CONST:
 					trace("got a const", genDecl.Specs)
+					var repeated *ast.ValueSpec
 					for _, spec := range genDecl.Specs {
 						if spec, ok := spec.(*ast.ValueSpec); ok {
-							if specType, ok := spec.Type.(*ast.Ident); ok {
-								for _, val := range spec.Values {
-									if valType, ok := val.(*ast.BasicLit); ok {
-										if _, ok := constantTypes[specType.Name]; !ok {
-											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
-										} else if _, ok := constantTypes[specType.Name].(map[string]*ast.BasicLit); !ok {
+							if spec.Type != nil || len(spec.Values) > 0 {
+								repeated = spec
+							}
+							if repeated == nil {
+								continue
+							}
+							if specType, ok := repeated.Type.(*ast.Ident); ok {
+								for i, name := range spec.Names {
+									if name.Name == "_" || i >= len(repeated.Values) {
+										continue
+									}
+									if valType := constantLiteral(repeated.Values[i]); valType != nil {
+										if _, ok := constantTypes[specType.Name].(map[string]*ast.BasicLit); !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										}
-										constantTypes[specType.Name].(map[string]*ast.BasicLit)[spec.Names[0].Name] = valType //nolint:forcetypeassert
+										constantTypes[specType.Name].(map[string]*ast.BasicLit)[name.Name] = valType //nolint:forcetypeassert
 									}
 								}
 							}
@@ -287,6 +295,21 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 	return constantTypes
 }
 
+// constantLiteral returns a literal, that may be signed or in parentheses
+func constantLiteral(expr ast.Expr) *ast.BasicLit {
+	switch expr := expr.(type) {
+	case *ast.BasicLit:
+		return expr
+	case *ast.ParenExpr:
+		return constantLiteral(expr.X)
+	case *ast.UnaryExpr:
+		if lit := constantLiteral(expr.X); lit != nil && (expr.Op == token.SUB || expr.Op == token.ADD) {
+			return &ast.BasicLit{ValuePos: expr.OpPos, Kind: lit.Kind, Value: expr.Op.String() + lit.Value}
+		}
+	}
+	return nil
+}
+
 func Read(
 	goPaths []string,
 	gomod config.Namespace,
diff --git a/typescript.go b/typescript.go
index 60b4913..7fceeae 100644
--- a/typescript.go
+++ b/typescript.go
@@ -1,8 +1,10 @@
 package gotsrpc
 
 import (
+	"encoding/json"
 	"errors"
 	"go/ast"
+	"go/constant"
 	"sort"
 	"strconv"
 	"strings"
@@ -293,9 +295,10 @@ func renderTypescriptStructsToPackages(
 					}
 					sort.Strings(keys)
 					packageCodeMap[packageConstantTypeName].l("export enum " + packageConstantTypeName + " {").ind(1)
+					enums := map[string]bool{}
 					for _, k := range keys {
-						enum := strings.TrimPrefix(strcase.ToCamel(k), packageConstantTypeName)
-						packageCodeMap[packageConstantTypeName].l(enum + " = " + packageConstantTypeValuesList[k].Value + ",")
+						enum := uniqueName(tsEnumName(k, packageConstantTypeName), enums)
+						packageCodeMap[packageConstantTypeName].l(enum + " = " + tsLiteral(packageConstantTypeValuesList[k]) + ",")
 					}
 					packageCodeMap[packageConstantTypeName].ind(-1).l("}")
 				} else if packageConstantTypeValuesString, ok := packageConstantTypeValues.(string); ok {
@@ -319,6 +322,38 @@ func renderTypescriptStructsToPackages(
 	return nil
 }
 
+// tsEnumName is the name of a constant without the name of its type
+func tsEnumName(name string, typeName string) string {
+	camel := strcase.ToCamel(name)
+	for _, enum := range []string{strings.TrimPrefix(camel, typeName), camel} {
+		if enum != "" && (enum[0] < '0' || enum[0] > '9') {
+			return enum
+		}
+	}
+	return name
+}
+
+// tsLiteral is a go literal in TypeScript
+func tsLiteral(lit *ast.BasicLit) string {
+	unsigned := strings.TrimLeft(lit.Value, "+-")
+	sign := strings.Repeat("-", strings.Count(lit.Value[:len(lit.Value)-len(unsigned)], "-")%2)
+	value := constant.MakeFromLiteral(unsigned, lit.Kind, 0)
+	switch value.Kind() { //nolint:exhaustive
+	case constant.String:
+		if strings.ContainsAny(lit.Value, "\\`") {
+			if jsonBytes, err := json.Marshal(constant.StringVal(value)); err == nil {
+				return string(jsonBytes)
+			}
+		}
+	case constant.Int:
+		return sign + value.ExactString()
+	case constant.Float:
+		float, _ := constant.Float64Val(value)
+		return sign + strconv.FormatFloat(float, 'g', -1, 64)
+	}
+	return lit.Value
+}
+
 func split(str string, seps []string) []string {
 	var res []string
 	strs := []string{str}
-- 
2.43.0


From 488692d081de584ebf03b9c2047599f0a4fe15b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 34/39] fix: imported packages have aliases of their own, that
 are identifiers

Packages whose paths differ in punctuation only shared an alias, so did
packages named like the fixed imports; paths with a leading digit, other
punctuation or that are keywords gave no identifiers, and predeclared or
local names were hidden by variables or hid what they mean.
---
 go.go | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/go.go b/go.go
index e0f83f1..503f14a 100644
--- a/go.go
+++ b/go.go
@@ -3,8 +3,11 @@ package gotsrpc
 import (
 	"fmt"
 	"go/ast"
+	"go/doc"
+	"go/token"
 	"sort"
 	"strings"
+	"unicode"
 
 	"github.com/foomo/gotsrpc/v2/config"
 )
@@ -87,21 +90,37 @@ func namesTaken(names ...string) map[string]bool {
 	return taken
 }
 
+// localNames are the names generated code uses where it refers to imported packages
+var localNames = []string{
+	"_", "init", "p", "tsc", "w", "r", "rw", "err", "ctx", "req", "funcName", "callStats", "args", "rets", "executionStart",
+	"start", "clientAddr", "request", "response", "reply", "clientErr", "client", "service", "url", "endpoint",
+}
+
+// importAlias makes an import path an identifier
+func importAlias(importPath string) string {
+	alias := strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, importPath)
+	if alias != "" && alias[0] >= '0' && alias[0] <= '9' {
+		alias = "_" + alias
+	}
+	if token.IsKeyword(alias) || doc.IsPredeclared(alias) {
+		alias += "_"
+	}
+	return alias
+}
+
 func extractImport(packageName string, fullPackageName string, aliases map[string]string) {
-	r := strings.NewReplacer(".", "_", "/", "_", "-", "_")
 	if packageName != fullPackageName {
 		if _, ok := aliases[packageName]; !ok {
-			packageParts := strings.Split(packageName, "/")
-			beautifulAlias := packageParts[len(packageParts)-1]
-			uglyAlias := r.Replace(packageName)
-			alias := uglyAlias // beautifulAlias
+			takenNames := namesTaken(localNames...)
 			for _, otherAlias := range aliases {
-				if otherAlias == beautifulAlias {
-					alias = uglyAlias
-					break
-				}
+				takenNames[otherAlias] = true
 			}
-			aliases[packageName] = alias
+			aliases[packageName] = uniqueName(importAlias(packageName), takenNames)
 		}
 	}
 }
@@ -144,7 +163,12 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 		}
 	}
 
+	unionPackages := make([]string, 0, len(unions))
 	for pkg := range unions {
+		unionPackages = append(unionPackages, pkg)
+	}
+	sort.Strings(unionPackages)
+	for _, pkg := range unionPackages {
 		extractImport(pkg, fullPackageName, aliases)
 	}
 
-- 
2.43.0


From db06141ce687b7e8de5b635cc30a22f5fa2b111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 35/39] fix: TypeScript modules have names of their own and
 lead to their files

Packages whose paths differ in punctuation only shared a module name,
names started with digits or were keywords; modules whose names end like
another's were imported without having a file; imports between absolute
and relative paths failed and those to and from files below ~ were wrong.
---
 build.go | 72 ++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 18 deletions(-)

diff --git a/build.go b/build.go
index 757812c..c6fbcac 100644
--- a/build.go
+++ b/build.go
@@ -11,6 +11,8 @@ import (
 	"runtime"
 	"sort"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"golang.org/x/tools/imports"
 
@@ -18,13 +20,43 @@ import (
 )
 
 func deriveCommonJSMapping(conf *config.Config) {
-	replacer := strings.NewReplacer(".", "_", "/", "_", "-", "_")
-	for _, mapping := range conf.Mappings {
-		mapping.TypeScriptModule = replacer.Replace(mapping.GoPackage)
+	takenNames := namesTaken(tsReservedWords...)
+	for _, packageName := range sortedMappings(conf) {
+		mapping := conf.Mappings[packageName]
+		mapping.TypeScriptModule = uniqueName(importAlias(mapping.GoPackage), takenNames)
+	}
+}
+
+func sortedMappings(conf *config.Config) []string {
+	packageNames := make([]string, 0, len(conf.Mappings))
+	for packageName := range conf.Mappings {
+		packageNames = append(packageNames, packageName)
 	}
+	sort.Strings(packageNames)
+	return packageNames
+}
+
+// expandHome replaces a leading ~ with the home directory
+func expandHome(file string) (string, error) {
+	if len(file) > 0 && file[0] == '~' {
+		home := os.Getenv("HOME")
+		if len(home) == 0 {
+			return "", errors.New("could not resolve home dir")
+		}
+		return path.Join(home, file[1:]), nil
+	}
+	return file, nil
 }
 
 func relativeFilePath(a, b string) (r string, e error) {
+	for _, file := range []*string{&a, &b} {
+		if *file, e = expandHome(*file); e != nil {
+			return
+		}
+		if *file, e = filepath.Abs(*file); e != nil {
+			return
+		}
+	}
 	r, e = filepath.Rel(path.Dir(a), b)
 	if e != nil {
 		return
@@ -33,16 +65,25 @@ func relativeFilePath(a, b string) (r string, e error) {
 	return
 }
 
-func commonJSImports(conf *config.Config, c *code, tsFilename string, code string) {
-	packageNames := make([]string, 0, len(conf.Mappings))
-	for packageName := range conf.Mappings {
-		packageNames = append(packageNames, packageName)
+// usesModule tells, if code refers to something in a module
+func usesModule(code string, module string) bool {
+	for {
+		i := strings.Index(code, module+".")
+		if i < 0 {
+			return false
+		}
+		if r, _ := utf8.DecodeLastRuneInString(code[:i]); !strings.ContainsRune("_$/", r) && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
+			return true
+		}
+		code = code[i+1:]
 	}
-	sort.Strings(packageNames)
-	for _, packageName := range packageNames {
+}
+
+func commonJSImports(conf *config.Config, c *code, tsFilename string, code string) {
+	for _, packageName := range sortedMappings(conf) {
 		importMapping := conf.Mappings[packageName]
 
-		if len(code) > 0 && !strings.Contains(code, importMapping.TypeScriptModule+".") {
+		if !usesModule(code, importMapping.TypeScriptModule) {
 			continue
 		}
 
@@ -281,14 +322,9 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 }
 
 func updateCode(file string, code string) error {
-	if len(file) > 0 {
-		if file[0] == '~' {
-			home := os.Getenv("HOME")
-			if len(home) == 0 {
-				return errors.New("could not resolve home dir")
-			}
-			file = path.Join(home, file[1:])
-		}
+	file, errExpandHome := expandHome(file)
+	if errExpandHome != nil {
+		return errExpandHome
 	}
 	errMkdirAll := os.MkdirAll(path.Dir(file), 0755)
 	if errMkdirAll != nil {
-- 
2.43.0


From 71bf3dc4f98c5802850b3a43256c5989b10c727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 36/39] fix: fail if a file with types could not be written

The failure was printed, yet the generator exited with 0.
---
 build.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build.go b/build.go
index c6fbcac..e213e13 100644
--- a/build.go
+++ b/build.go
@@ -317,6 +317,7 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		updateErr := updateCode(mapping.Out, getTSHeaderComment()+ts)
 		if updateErr != nil {
 			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out, updateErr)
+			os.Exit(3)
 		}
 	}
 }
-- 
2.43.0


From d307d8e45a620b7b01ede6bbb0d14977b7022029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 37/39] fix: send times that are arguments or results as
 numbers with JSON

The codec only used the extension for times in structs, lists and maps. Times passed on their own were sent as text, which neither the server nor a Go client could decode, and which TypeScript clients received where their types say number.
---
 client.go    | 11 ++++++++++-
 transport.go | 23 +++++++++++++++++++++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 67ee8bf..2729590 100644
--- a/client.go
+++ b/client.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"slices"
 
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
@@ -82,7 +83,15 @@ func (c *bufferedClient) Call(ctx context.Context, url string, endpoint string,
 
 	// If no arguments are set, remove
 	if len(args) > 0 {
-		if err := codec.NewEncoder(b, c.handle.handle).Encode(args); err != nil {
+		encoded := args
+		if c.handle.beforeEncodeArgs != nil {
+			// the caller keeps the original values
+			encoded = slices.Clone(args)
+			if err := c.handle.beforeEncodeArgs(&encoded); err != nil {
+				return NewClientError(errors.Wrap(err, "failed to call beforeEncodeArgs hook"))
+			}
+		}
+		if err := codec.NewEncoder(b, c.handle.handle).Encode(encoded); err != nil {
 			return NewClientError(errors.Wrap(err, "failed to encode arguments"))
 		}
 	}
diff --git a/transport.go b/transport.go
index bab6623..3c60cbb 100644
--- a/transport.go
+++ b/transport.go
@@ -20,6 +20,7 @@ var errorType = reflect.TypeOf((*error)(nil)).Elem()
 type clientHandle struct {
 	handle            codec.Handle
 	contentType       string
+	beforeEncodeArgs  func(*[]interface{}) error
 	beforeEncodeReply func(*[]interface{}) error
 	beforeDecodeReply func([]interface{}) ([]interface{}, error)
 	afterDecodeReply  func(*[]interface{}, []interface{}) error
@@ -95,8 +96,26 @@ func init() {
 }
 
 var jsonClientHandle = &clientHandle{
-	handle:      &codec.JsonHandle{},
-	contentType: "application/json; charset=utf-8",
+	handle:            &codec.JsonHandle{},
+	contentType:       "application/json; charset=utf-8",
+	beforeEncodeArgs:  useTimeExt,
+	beforeEncodeReply: useTimeExt,
+}
+
+// useTimeExt makes the codec encode times with their extension, which it does not for those it finds in interfaces
+func useTimeExt(values *[]interface{}) error {
+	for k, v := range *values {
+		switch t := v.(type) {
+		case time.Time:
+			ptr := &t
+			(*values)[k] = &ptr
+		case *time.Time:
+			if t != nil {
+				(*values)[k] = &t
+			}
+		}
+	}
+	return nil
 }
 
 func NewMSGPackEncoderBytes(b *[]byte) *codec.Encoder {
-- 
2.43.0


From 1ce40b3cb419b700256f5431d491e1e64ce45a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 38/39] fix: a service that is not declared in its package is
 an error

---
 servicereader.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 4070521..6a71c21 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -208,10 +208,25 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 			return
 		}
 	}
+	for _, service := range services {
+		if !declaresType(pkg, service.Name) {
+			return nil, errors.New("service \"" + service.Name + "\" not found in package " + packageName)
+		}
+	}
 	sort.Sort(services)
 	return
 }
 
+// declaresType tells whether a type of that name is declared in the package
+func declaresType(pkg *ast.Package, name string) bool {
+	for _, file := range pkg.Files {
+		if obj := file.Scope.Lookup(name); obj != nil && obj.Kind == ast.Typ {
+			return true
+		}
+	}
+	return false
+}
+
 // sortedFiles are the files of a package sorted by name
 func sortedFiles(pkg *ast.Package) []*ast.File {
 	names := make([]string, 0, len(pkg.Files))
-- 
2.43.0


From 5e3fa979810b234a429e817f4d94e51217c1b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:55 +0000
Subject: [PATCH 39/39] fix: what is embedded inline in an anonymous struct is
 part of its TypeScript type

---
 typescript.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/typescript.go b/typescript.go
index 7fceeae..77e4a61 100644
--- a/typescript.go
+++ b/typescript.go
@@ -99,6 +99,18 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 		ts.app(v.StructType.Name)
 	case v.Struct != nil:
 		// v.Struct.Value.tsType(mappings, ts)
+		for _, inlineField := range v.Struct.InlineFields {
+			// what an interface extends
+			partial := inlineField.Value.IsPtr
+			if partial {
+				ts.app("Partial<")
+			}
+			inlineField.Value.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})
+			if partial {
+				ts.app(">")
+			}
+			ts.app(" & ")
+		}
 		ts.l("{").ind(1)
 		renderStructFields(v.Struct.Fields, mappings, scalars, structs, ts)
 		ts.ind(-1).app("}")
-- 
2.43.0

