From d5788da477ed70456ce6d4038f4062063880794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 01/81] fix: do not share the backing array when adding
 elements to a list

---
 collections/implementation/list_helper.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index abac497..6958913 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -18,13 +18,16 @@ type ListHelper struct {
 // Add adds elements at the end of the supplied list.
 func (lh ListHelper) Add(list baseIList, prepend bool, objects ...interface{}) baseIList {
 	array := list.AsArray()
+	converted := make([]interface{}, len(objects))
 	for i := range objects {
-		objects[i] = lh.Convert(objects[i])
+		converted[i] = lh.Convert(objects[i])
 	}
 	if prepend {
-		array, objects = objects, array
+		array, converted = converted, array
 	}
-	return lh.AsList(append(array, objects...))
+	// The elements are copied into a new array since another list may share the unused capacity of the current one
+	result := make([]interface{}, 0, len(array)+len(converted))
+	return lh.AsList(append(append(result, array...), converted...))
 }
 
 // Clone returns a copy of the supplied list.
-- 
2.43.0


From 6e2c4eb0a994436d495e4f251b869721fe33ab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 02/81] fix: do not alter the indexes supplied to list Remove

---
 collections/implementation/list_helper.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index 6958913..5264150 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -169,12 +169,14 @@ func (lh ListHelper) Intersect(list baseIList, values ...interface{}) baseIList
 
 // Remove returns a new list without the element specified.
 func (lh ListHelper) Remove(list baseIList, indexes ...int) baseIList {
+	positions := make([]int, len(indexes))
 	for i, index := range indexes {
 		if index < 0 {
-			indexes[i] += list.Len()
+			index += list.Len()
 		}
+		positions[i] = index
 	}
-	discard := collections.AsList(indexes)
+	discard := collections.AsList(positions)
 	target := list.Create(0, list.Len())
 	for i := range list.AsArray() {
 		if !discard.Contains(i) {
-- 
2.43.0


From d29fc6d7bf842938bcc7f3fd4e082d834a6f09f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:12 +0000
Subject: [PATCH 03/81] fix: list Clone keeps single nested list and is really
 distinct from its source

---
 collections/implementation/list_helper.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index 5264150..bda380b 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -32,7 +32,17 @@ func (lh ListHelper) Add(list baseIList, prepend bool, objects ...interface{}) b
 
 // Clone returns a copy of the supplied list.
 func (lh ListHelper) Clone(list baseIList) baseIList {
-	return lh.NewList(list.AsArray()...)
+	result := lh.CreateList(list.Len())
+	for i, item := range list.AsArray() {
+		switch value := item.(type) {
+		case baseIDict:
+			item = value.Clone()
+		case baseIList:
+			item = value.Clone()
+		}
+		result.Set(i, item)
+	}
+	return result
 }
 
 // Contains indicates if the list contains all specified elements
-- 
2.43.0


From e38998e7198394d43760961f754f773e5cb26fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 04/81] fix: do not alter the source dictionaries when merging
 more than one dictionary

---
 collections/implementation/dict_helper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collections/implementation/dict_helper.go b/collections/implementation/dict_helper.go
index e2dfc6a..f0e4562 100644
--- a/collections/implementation/dict_helper.go
+++ b/collections/implementation/dict_helper.go
@@ -152,7 +152,12 @@ func (dh DictHelper) deepMerge(target baseIDict, source baseIDict) baseIDict {
 		sourceValueDict, sourceValueIsDict := sourceValue.(baseIDict)
 
 		if sourceValueIsDict && targetValueIsDict {
-			targetMap[key] = dh.deepMerge(targetValueDict, sourceValueDict)
+			// The current value may come from one of the previous sources, so we merge into a copy to avoid altering it
+			merged := dh.CreateDictionary(targetValueDict.Len())
+			for k, v := range targetValueDict.AsMap() {
+				merged.Set(k, v)
+			}
+			targetMap[key] = dh.deepMerge(merged, sourceValueDict)
 		}
 	}
 
-- 
2.43.0


From 846132b13097a324d9619f7f041f0e899fa87ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 05/81] fix: GetTypes and GetKinds do not panic on nil values

---
 collections/implementation/base_helper.go | 8 ++++++++
 collections/implementation/dict_helper.go | 2 +-
 collections/implementation/list_helper.go | 3 +--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/collections/implementation/base_helper.go b/collections/implementation/base_helper.go
index 9d1a02c..4058abc 100644
--- a/collections/implementation/base_helper.go
+++ b/collections/implementation/base_helper.go
@@ -253,6 +253,14 @@ func NeedConversion(object interface{}, strict bool, typeName string) bool {
 	return false
 }
 
+// typeName returns the type (or kind) of the supplied value, nil is a valid value that has no type.
+func typeName(value interface{}, kind bool) string {
+	if value == nil {
+		return "nil"
+	}
+	return iif(kind, reflect.TypeOf(value).Kind().String(), reflect.TypeOf(value).Name()).(string)
+}
+
 var (
 	needConversionImpl = NeedConversion
 	iif                = collections.IIf
diff --git a/collections/implementation/dict_helper.go b/collections/implementation/dict_helper.go
index f0e4562..f2498f0 100644
--- a/collections/implementation/dict_helper.go
+++ b/collections/implementation/dict_helper.go
@@ -111,7 +111,7 @@ func (dh DictHelper) GetTypes(dict baseIDict, kind bool) baseIDict {
 	result := dh.CreateDictionary(dict.Len())
 
 	for key, value := range dict.AsMap() {
-		result.Set(key, iif(kind, reflect.TypeOf(value).Kind().String(), reflect.TypeOf(value).Name()))
+		result.Set(key, typeName(value, kind))
 	}
 	return result
 }
diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index bda380b..0079c1a 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -119,8 +119,7 @@ func (lh ListHelper) GetStringArray(list baseIList) strArray {
 func (lh ListHelper) GetTypes(list baseIList, kind bool) baseIList {
 	result := lh.CreateList(list.Len())
 	for i := range list.AsArray() {
-		value := list.Get(i)
-		result.Set(i, iif(kind, reflect.TypeOf(value).Kind().String(), reflect.TypeOf(value).Name()))
+		result.Set(i, typeName(list.Get(i), kind))
 	}
 	return result
 }
-- 
2.43.0


From a7630416ba71829208c5bcf237e9b4af78f70117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 06/81] fix: pluck returns the values it found

---
 template/extra_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_data.go b/template/extra_data.go
index df47fb3..a9ed3ea 100644
--- a/template/extra_data.go
+++ b/template/extra_data.go
@@ -546,7 +546,7 @@ func pluck(key interface{}, dicts ...iDictionary) iList {
 	result := collections.CreateList(0, len(dicts))
 	for i := range dicts {
 		if dicts[i].Has(key) {
-			result.Append(dicts[i].Get(key))
+			result = result.Append(dicts[i].Get(key))
 		}
 	}
 	return result
-- 
2.43.0


From bb57ea4f932a20dc3d8e261d2fbc6e9035bcf840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 07/81] fix: pickv picks the supplied keys

---
 template/extra_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_data.go b/template/extra_data.go
index a9ed3ea..13ee9af 100644
--- a/template/extra_data.go
+++ b/template/extra_data.go
@@ -524,7 +524,7 @@ func pickv(dict iDictionary, message string, key interface{}, otherKeys ...inter
 		}
 		return nil, errors.New(message)
 	}
-	return pick(dict, append(otherKeys, key)), nil
+	return dict.Clone(append([]interface{}{key}, otherKeys...)...), nil
 }
 
 func keys(dict iDictionary) iList   { return dict.GetKeys() }
-- 
2.43.0


From 577d38d48aa490f40c92a3a5e0479c88c140c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 08/81] fix: do not overflow numbers too large to be
 represented as integer when reading JSON and XML

---
 json/json.go | 2 +-
 xml/xml.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/json.go b/json/json.go
index 6ebaa08..1f3c491 100644
--- a/json/json.go
+++ b/json/json.go
@@ -68,7 +68,7 @@ func transformElement(source interface{}) interface{} {
 		source = value
 	} else if value, ok := source.(float64); ok {
 		// json.Unmarshal returns all int values as float64
-		if math.Floor(value) == value {
+		if math.Floor(value) == value && math.Abs(value) < 1<<63 {
 			source = int(value)
 		}
 	}
diff --git a/xml/xml.go b/xml/xml.go
index 8cd2afe..16c3f7b 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -67,7 +67,7 @@ func transformElement(source interface{}) interface{} {
 		source = value
 	} else if value, ok := source.(float64); ok {
 		// xml.Unmarshal returns all int values as float64
-		if math.Floor(value) == value {
+		if math.Floor(value) == value && math.Abs(value) < 1<<63 {
 			source = int(value)
 		}
 	}
-- 
2.43.0


From 2e472e1aedbe9faca227226ae5fef02c7131a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 09/81] fix: do not overflow the result of mathematic functions
 when it does not fit in an integer

---
 template/math_utilities.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/math_utilities.go b/template/math_utilities.go
index 86df30e..fc29bd7 100644
--- a/template/math_utilities.go
+++ b/template/math_utilities.go
@@ -127,7 +127,7 @@ func convertArgs(arg1 interface{}, args ...interface{}) (result collections.IGen
 }
 
 func simplify(value float64) interface{} {
-	return iif(math.Floor(value) == value, int64(value), value)
+	return iif(math.Floor(value) == value && math.Abs(value) < 1<<63, int64(value), value)
 }
 
 func compareNumerics(values []interface{}, useMinFunc bool) interface{} {
-- 
2.43.0


From 5f4d5f9e77d0b859eea67996135eef5a2e18af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 10/81] fix: quote HCL identifiers that contains invalid
 characters

---
 hcl/utilities.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/utilities.go b/hcl/utilities.go
index 0b8c851..482c960 100644
--- a/hcl/utilities.go
+++ b/hcl/utilities.go
@@ -247,7 +247,7 @@ func singleMap(m map[string]interface{}) string {
 	return ""
 }
 
-var identifierRegex = regexp.MustCompile(`^[A-za-z][\w-]*$`)
+var identifierRegex = regexp.MustCompile(`^[A-Za-z_][\w-]*$`)
 
 func id(key string) string {
 	if identifierRegex.MatchString(key) {
-- 
2.43.0


From 3fdee495c6653fc5fcac06e1c10ed7900cfca175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:11 +0000
Subject: [PATCH 11/81] fix: slice does not fail when both limits are outside
 of the sliced value

---
 template/slice.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/template/slice.go b/template/slice.go
index de7ed0e..a9c24ef 100644
--- a/template/slice.go
+++ b/template/slice.go
@@ -122,8 +122,8 @@ func sliceList(value reflect.Value, args ...interface{}) (result interface{}, er
 	}
 
 	// For slice operation, there is no error if the index are of limit
-	end = int(min(end, length).(int64))
-	begin = int(max(begin, 0).(int64))
+	end = int(max(min(end, length), 0).(int64))
+	begin = int(min(max(begin, 0), end).(int64))
 
 	if value.Kind() == reflect.String {
 		// String slices are returned as string instead of array of runes
@@ -134,10 +134,6 @@ func sliceList(value reflect.Value, args ...interface{}) (result interface{}, er
 		return result, nil
 	}
 
-	if begin > length {
-		// Begin is after the end
-		return collections.AsList(value.Interface()).Create(), nil
-	}
 	results := collections.AsList(value.Interface()).Create(end - begin)
 	for i := range results.AsArray() {
 		results.Set(i, value.Index(i+begin).Interface())
-- 
2.43.0


From ca6665d2670b05e7ec367f26b1cd5aebba88966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 12/81] fix: keep tabs in YAML strings

---
 yaml/yaml.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yaml/yaml.go b/yaml/yaml.go
index 63e5149..679d50f 100644
--- a/yaml/yaml.go
+++ b/yaml/yaml.go
@@ -28,9 +28,11 @@ func init() { collections.TypeConverters["yaml"] = Unmarshal }
 // Unmarshal calls the native Unmarshal but transform the results
 // to returns Dictionary and GenericList instead of go native collections.
 func Unmarshal(data []byte, out interface{}) (err error) {
-	// Yaml does not support tab, so we replace tabs by spaces if there are
-	data = bytes.Replace(data, []byte("\t"), []byte("    "), -1)
-	if err = NativeUnmarshal(data, out); err != nil {
+	if err = NativeUnmarshal(data, out); err != nil && bytes.Contains(data, []byte("\t")) {
+		// Yaml does not support tab in indentation, so we replace tabs by spaces if there are
+		err = NativeUnmarshal(bytes.Replace(data, []byte("\t"), []byte("    "), -1), out)
+	}
+	if err != nil {
 		return
 	}
 	transform(out)
-- 
2.43.0


From 45269c07e962e73a04411b549079ed2248a35178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 13/81] fix: do not panic when printing terraform files

---
 template/template_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template_process.go b/template/template_process.go
index 3f60442..7b36f29 100644
--- a/template/template_process.go
+++ b/template/template_process.go
@@ -53,7 +53,7 @@ func (t *Template) ProcessTemplates(sourceFolder, targetFolder string, templates
 func (t *Template) printResult(source, target, result string, changed bool) (err error) {
 	if utils.IsTerraformFile(target) {
 		base := filepath.Base(target)
-		tempFolder := must(os.CreateTemp(t.tempFolder, base)).(string)
+		tempFolder := must(os.MkdirTemp(t.tempFolder, base)).(string)
 		tempFile := filepath.Join(tempFolder, base)
 		err = os.WriteFile(tempFile, []byte(result), 0644)
 		if err != nil {
-- 
2.43.0


From 237bc15991ea7a8edf674678c770bc0267b3a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 14/81] fix: run in overwrite mode when the target folder is
 not the source folder

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 67cda35..55a227c 100644
--- a/main.go
+++ b/main.go
@@ -232,7 +232,7 @@ func runGotemplate() (exitCode int) {
 	*targetFolder = errors.Must(filepath.Abs(*targetFolder)).(string)
 
 	// If target folder is not equal to source folder, we run in overwrite mode by default
-	*overwrite = *overwrite || *sourceFolder != *targetFolder
+	optionsSet[template.Overwrite] = *overwrite || *sourceFolder != *targetFolder
 
 	stat, _ := os.Stdin.Stat()
 	if (stat.Mode()&os.ModeCharDevice) == 0 && os.Getenv(envDisableStdinCheck) == "" {
-- 
2.43.0


From 0ba86f761e5af0bc00cfe8aa684658f5a2be7244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 15/81] fix: do not consider partial extensions as explicit
 template files

---
 template/template_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 44e1b68..456873e 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -220,7 +220,7 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 				strictMode := t.options[StrictErrorCheck]
 				strictMode = strictMode || strings.Contains(th.Source, explicitGoTemplate)
 				extension := filepath.Ext(th.Filename)
-				strictMode = strictMode || (extension != "" && strings.Contains(".gt,.gte,.template", extension))
+				strictMode = strictMode || extension == ".gt" || extension == ".gte" || extension == ".template"
 				if !(strictMode) {
 					InternalLog.Errorf("Ignored gotemplate error in %s (file left unchanged):\n%s", color.CyanString(th.Filename), err.Error())
 					result, err = th.Source, nil
-- 
2.43.0


From af7b57dc32db6509fea1cb2bbbd8eebd71159e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:08 +0000
Subject: [PATCH 16/81] fix: do not panic when there are only unnamed variables
 on the command line

---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index 20c0620..71a4fc3 100644
--- a/context.go
+++ b/context.go
@@ -152,6 +152,9 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 	}
 
 	if len(unnamed) > 0 {
+		if context == nil {
+			context = collections.CreateDictionary()
+		}
 		context.Set("ARGS", unnamed)
 	}
 	return context, nil
-- 
2.43.0


From abe5592316b16a766fa59227dab4c6b90a30348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 17/81] fix: allow razor conversions in concurrent goroutines

---
 template/razor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/template/razor.go b/template/razor.go
index c37f2c6..6c86d16 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+	"sync"
 
 	"github.com/fatih/color"
 	"github.com/sirupsen/logrus"
@@ -14,6 +15,8 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 	if !t.options[Razor] || !t.IsRazor(string(content)) {
 		return content, false
 	}
+	razorMutex.Lock()
+	defer razorMutex.Unlock()
 	t.ensureInit()
 
 	for _, ignoredExpr := range t.ignoredRazorExpr {
@@ -147,6 +150,9 @@ var expressions = [][]interface{}{
 
 var replacementsInit = make(map[string][]replacement)
 
+// The razor conversion relies on global variables
+var razorMutex sync.Mutex
+
 type replacementFunc func(replacement, string) string
 type replacement struct {
 	name       string
-- 
2.43.0


From 89b080461cd94e0fb69dd3f9e2f633269d0829b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 18/81] fix: find the default shell safely in concurrent
 goroutines

---
 utils/exec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/exec.go b/utils/exec.go
index b9750dd..e771e97 100644
--- a/utils/exec.go
+++ b/utils/exec.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"runtime"
 	"strings"
+	"sync"
 )
 
 // https://regex101.com/r/ykVKPt/6
@@ -110,6 +111,8 @@ func saveTempFile(content string, args ...interface{}) (cmd *exec.Cmd, fileName
 }
 
 func getDefaultShell() string {
+	defaultShellMutex.Lock()
+	defer defaultShellMutex.Unlock()
 	if defaultShell != "" {
 		return defaultShell
 	}
@@ -127,6 +130,7 @@ func getDefaultShell() string {
 }
 
 var defaultShell string
+var defaultShellMutex sync.Mutex
 
 // GetEnv returns the environment variable value or defaultValue if it does not exist.
 func GetEnv(varName, defaultValue string) string {
-- 
2.43.0


From 870ab3d9259ffbd92438495da76c84710bf027aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 19/81] fix: following symbolic links does not loop or find the
 same folder many times

---
 utils/io.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index 8727828..75e17ae 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -27,6 +27,7 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 	walker = func(folder string) ([]string, error) {
 		results := must(findFiles(folder, patterns...)).([]string)
 		folder, _ = filepath.Abs(folder)
+		visited[realPath(folder)] = true
 		if maxDepth == 0 {
 			return results, nil
 		}
@@ -36,11 +37,11 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 				return nil
 			}
 			if info.IsDir() {
-				visited[path] = true
 				depth := strings.Count(must(filepath.Rel(path, folder)).(string), "..")
-				if depth > maxDepth {
+				if depth > maxDepth || visited[realPath(path)] {
 					return filepath.SkipDir
 				}
+				visited[realPath(path)] = true
 				files, err := findFiles(path, patterns...)
 				if err != nil {
 					return err
@@ -59,7 +60,7 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 					link = filepath.Join(filepath.Dir(path), link)
 				}
 				link, _ = filepath.Abs(link)
-				if !visited[link] {
+				if link = realPath(link); !visited[link] {
 					// Check if we already visited that link to avoid recursive loop
 					linkFiles, err := walker(link)
 					if err != nil {
@@ -75,6 +76,14 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 	return walker(folder)
 }
 
+// realPath returns the actual path (without symbolic links) if it exists
+func realPath(path string) string {
+	if real, err := filepath.EvalSymlinks(path); err == nil {
+		return real
+	}
+	return path
+}
+
 // FindFiles returns the list of files in the specified folder that match one of the supplied patterns
 func findFiles(folder string, patterns ...string) ([]string, error) {
 	var matches []string
-- 
2.43.0


From aeb5f8b114f7cabc462de25f1614f34ace58cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:42 +0000
Subject: [PATCH 20/81] fix: find a file only once when it matches many
 patterns

---
 utils/io.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/io.go b/utils/io.go
index 75e17ae..2589028 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -87,12 +87,18 @@ func realPath(path string) string {
 // FindFiles returns the list of files in the specified folder that match one of the supplied patterns
 func findFiles(folder string, patterns ...string) ([]string, error) {
 	var matches []string
+	found := map[string]bool{}
 	for _, pattern := range patterns {
 		files, err := filepath.Glob(filepath.Join(folder, pattern))
 		if err != nil {
 			return nil, err
 		}
-		matches = append(matches, files...)
+		for _, file := range files {
+			if !found[file] {
+				found[file] = true
+				matches = append(matches, file)
+			}
+		}
 	}
 	return matches, nil
 }
-- 
2.43.0


From b4b2f418acf7b4fd88e9a1c5ef46dde8d948e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 21/81] fix: ranges of decimal numbers stop exactly on their
 limit

---
 template/math_utilities.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/template/math_utilities.go b/template/math_utilities.go
index fc29bd7..701a935 100644
--- a/template/math_utilities.go
+++ b/template/math_utilities.go
@@ -169,7 +169,7 @@ func generateNumericArray(limit bool, params ...interface{}) (result collections
 		stop = toFloat(params[0])
 	case 3:
 		step = math.Abs(toFloat(params[2]))
-		_, frac := collections.Split2(fmt.Sprintf("%g", step), ".")
+		_, frac := collections.Split2(strconv.FormatFloat(step, 'f', -1, 64), ".")
 		precision = len(frac)
 		fallthrough
 	case 2:
@@ -186,10 +186,9 @@ func generateNumericArray(limit bool, params ...interface{}) (result collections
 	if !forward {
 		step = -step
 	}
-	for current := start; (forward && current <= stop || !forward && current >= stop) && (limit || current != stop); {
-		current = sprigRound(current, precision)
+	for current := sprigRound(start, precision); (forward && current <= stop || !forward && current >= stop) && (limit || current != stop); {
 		array = append(array, simplify(current))
-		current += step
+		current = sprigRound(current+step, precision)
 	}
 	result = collections.AsList(array)
 	return
-- 
2.43.0


From 5cf884cefa76712aa35c171a15b0d4b6f1e1ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 22/81] fix: ranges of negative decimal numbers neither drift
 nor loop

---
 template/math_utilities.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/template/math_utilities.go b/template/math_utilities.go
index 701a935..e522d23 100644
--- a/template/math_utilities.go
+++ b/template/math_utilities.go
@@ -157,20 +157,23 @@ func compareStrings(values []interface{}, useMinFunc bool) (result string) {
 	return result
 }
 
+// decimals returns the number of decimals required to represent the value.
+func decimals(value float64) int {
+	_, frac := collections.Split2(strconv.FormatFloat(value, 'f', -1, 64), ".")
+	return len(frac)
+}
+
 func generateNumericArray(limit bool, params ...interface{}) (result collections.IGenericList, err error) {
 	defer func() { err = trapError(err, recover()) }()
 
 	var start, stop float64
 	var step float64 = 1
-	var precision int
 	switch len(params) {
 	case 1:
 		start = float64(iif(limit, 1, 0).(int))
 		stop = toFloat(params[0])
 	case 3:
 		step = math.Abs(toFloat(params[2]))
-		_, frac := collections.Split2(strconv.FormatFloat(step, 'f', -1, 64), ".")
-		precision = len(frac)
 		fallthrough
 	case 2:
 		start = toFloat(params[0])
@@ -186,9 +189,13 @@ func generateNumericArray(limit bool, params ...interface{}) (result collections
 	if !forward {
 		step = -step
 	}
-	for current := sprigRound(start, precision); (forward && current <= stop || !forward && current >= stop) && (limit || current != stop); {
+	precision := iif(decimals(start) > decimals(step), decimals(start), decimals(step)).(int)
+	for i := 0; ; i++ {
+		current := must(strconv.ParseFloat(strconv.FormatFloat(start+float64(i)*step, 'f', precision, 64), 64)).(float64)
+		if forward && current > stop || !forward && current < stop || !limit && current == stop {
+			break
+		}
 		array = append(array, simplify(current))
-		current = sprigRound(current+step, precision)
 	}
 	result = collections.AsList(array)
 	return
-- 
2.43.0


From 7818cd71d48c5927d3f210b2fa34808b42832fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 23/81] fix: keep dollar signs in the strings of razor
 expressions

---
 template/razor_repl_expr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 2615257..126940a 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -117,7 +117,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		if selectExpr, err = expressionParserInternal(exprRepl, selectExpr, true, true); err != nil {
 			return match, err
 		}
-		repl.replace = strings.Replace(repl.replace, "${selection}", selectExpr, -1)
+		repl.replace = strings.Replace(repl.replace, "${selection}", strings.Replace(selectExpr, "$", "$$", -1), -1)
 	}
 
 	if expr != "" {
@@ -129,6 +129,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		if err == nil {
 			result, err := node(tr)
 			if err == nil {
+				result = strings.Replace(result, "$", "$$", -1) // The remaining $ are part of strings
 				result = strings.Replace(result, reserved["$"], "$$", -1)
 				for _, keyword := range reservedKeywords {
 					// Bring back all reserved keywords
-- 
2.43.0


From 31ded7834358a62d25938f7014c00c6c9fb923b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 24/81] fix: do not consider := in strings of razor expressions
 as an assignation

---
 template/razor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/razor.go b/template/razor.go
index 6c86d16..dd587e4 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -133,7 +133,7 @@ var expressions = [][]interface{}{
 	{"Expression @(var)[...]", `@reduce;(?P<expr>\([sp](?P<name>[idSel])[sp]\)index;)endexpr;`, `{{${reduce1} ${slicer} $$.${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Expression @(var)", `@reduce;\([sp](?P<expr>[idSel])[sp]\)endexpr;`, `{{${reduce1} ${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Expression @(expr)[...]", `@reduce;\([sp](?P<expr>[expr]+)[sp]\)index;endexpr;`, `{{${reduce1} ${slicer} (${expr}) ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
-	{"Expression @(expr)", `@reduce;\([sp](?P<assign>.*?:= ?)?[sp](?P<expr>[expr]+)[sp]\)endexpr;`, `{{${reduce1} ${assign}${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
+	{"Expression @(expr)", `@reduce;\([sp]assign;?[sp](?P<expr>[expr]+)[sp]\)endexpr;`, `{{${reduce1} ${assign}${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
 
 	{"Space eater", `@-endexpr;`, `{{- "" -}}`},
 
-- 
2.43.0


From 5661618e03832772e77c86f3124b83a53733037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 25/81] fix: accept negative operands after operators written
 as words

---
 template/razor_repl_expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 126940a..3206a92 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -82,7 +82,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		}
 
 		for key, val := range operators {
-			protected = protected.Replace(" "+val+" ", key)
+			protected = protected.Replace(" "+val+" ", " "+key+" ")
 		}
 		// We add support to partial slice
 		protected = String(indexExpression(protected.Str()))
-- 
2.43.0


From 88dc11d648125fa990aacbcbb2816c89b8613119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 26/81] fix: do not confuse stars in the strings of a
 multiplication with the power operator

---
 template/razor_expr.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/template/razor_expr.go b/template/razor_expr.go
index 3521bc4..eb88e1c 100644
--- a/template/razor_expr.go
+++ b/template/razor_expr.go
@@ -36,12 +36,14 @@ func nodeValue(node ast.Node) (result string, err error) {
 		if x, err = nodeValueInternal(n.X); err != nil {
 			return
 		}
-		if y, err = nodeValueInternal(n.Y); err != nil {
+		if star, ok := n.Y.(*ast.StarExpr); ok && op == "mul" {
+			// This is a special case where the expression contains 2 following *, meaning power instead of mul
+			if y, err = nodeValueInternal(star.X); err == nil {
+				result = fmt.Sprintf("power %s %s", x, y)
+			}
 			return
 		}
-		if op == "mul" && strings.Contains(y, "*") {
-			// This is a special case where the expression contains 2 following *, meaning power instead of mul
-			result = fmt.Sprintf("power %s %s", x, strings.Replace(y, "*", "", -1))
+		if y, err = nodeValueInternal(n.Y); err != nil {
 			return
 		}
 		result = fmt.Sprintf("%s %s %s", op, x, y)
-- 
2.43.0


From 2e367e1ce8d7ce069fdc886adaaa675d01cdacac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:50 +0000
Subject: [PATCH 27/81] fix: right space eater is applied on razor expressions
 and local variables

---
 template/razor.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index dd587e4..7edb581 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -124,10 +124,6 @@ var expressions = [][]interface{}{
 	{"Context variables special with slice", `@reduce;\.(?P<expr>(?P<name>[flexible_id])index;)endexpr;`, `{{${reduce1} ${slicer} (get . "${name}") ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Global variables special with slice", `@reduce;(?P<expr>(?P<name>[flexible_id])index;)endexpr;`, `{{${reduce1} ${slicer} (get $$ "${name}") ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Local variables with slice", `@reduce;(?P<expr>(?P<name>[\$\.][\p{L}\d_\.]*)index;)endexpr;`, `{{${reduce1} ${slicer} ${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
-	{"Global variables - @var", `@reduce;(?P<name>[idSel])endexpr;`, `{{${reduce1} $$.${name} ${reduce2}}}`},
-	{"Context variables special - @.var", `@reduce;\.(?P<name>[flexible_id])endexpr;`, `{{${reduce1} get . "${name}" ${reduce2}}}`},
-	{"Global variables special - @var", `@reduce;(?P<name>[flexible_id])endexpr;`, `{{${reduce1} get $$ "${name}" ${reduce2}}}`},
-	{"Local variables - @$var or @.var", `@reduce;(?P<name>[\$\.][\p{L}\d_\.]*)endexpr;`, `{{${reduce1} ${name} ${reduce2}}}`},
 
 	// Expressions
 	{"Expression @(var)[...]", `@reduce;(?P<expr>\([sp](?P<name>[idSel])[sp]\)index;)endexpr;`, `{{${reduce1} ${slicer} $$.${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
@@ -135,6 +131,12 @@ var expressions = [][]interface{}{
 	{"Expression @(expr)[...]", `@reduce;\([sp](?P<expr>[expr]+)[sp]\)index;endexpr;`, `{{${reduce1} ${slicer} (${expr}) ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Expression @(expr)", `@reduce;\([sp]assign;?[sp](?P<expr>[expr]+)[sp]\)endexpr;`, `{{${reduce1} ${assign}${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
 
+	// Single variables (must be after the expressions because @_ could be confused with a variable in @_-(expr))
+	{"Global variables - @var", `@reduce;(?P<name>[idSel])endexpr;`, `{{${reduce1} $$.${name} ${reduce2}}}`},
+	{"Context variables special - @.var", `@reduce;\.(?P<name>[flexible_id])endexpr;`, `{{${reduce1} get . "${name}" ${reduce2}}}`},
+	{"Global variables special - @var", `@reduce;(?P<name>[flexible_id])endexpr;`, `{{${reduce1} get $$ "${name}" ${reduce2}}}`},
+	{"Local variables - @$var or @.var", `@reduce;(?P<name>[\$\.][\p{L}\d_\.]*)endexpr;`, `{{${reduce1} ${name} ${reduce2}}}`},
+
 	{"Space eater", `@-endexpr;`, `{{- "" -}}`},
 
 	// Inline contents: Render the content without its enclosing double quotes
-- 
2.43.0


From d3974ba11507a46d051338461eb68207168657e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 28/81] fix: accept elseif as else if in razor

---
 template/razor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/template/razor.go b/template/razor.go
index 7edb581..4ed203e 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -98,6 +98,7 @@ var expressions = [][]interface{}{
 	{"", `{{ /\*`, `{{/*`}, {"", `\*/ }}`, `*/}}`}, // Gotemplate is picky about spaces around comment {{- /* comment */ -}} and {{/* comment */}} are valid, but {{-/* comment */-}} and {{ /* comment */ }} are not.
 
 	// Commands
+	{"Else if", `@reduce;else[sp]if[sp]\(`, "@${reduce}else if("},
 	{"Foreach", `@reduce;for(?:[sp]each)?[sp]\(`, "@${reduce}range("},
 	{"Single line command - @command (expr) action;", `@reduce;(?P<command>if|with|range)[sp]\([sp]assign;?[sp](?P<expr>[expr]+)[sp]\)[sp](?P<action>[^\n]+?)[sp];`, `{{${reduce1} ${command} ${assign}${expr} ${reduce2}}}${action}{{${reduce1} end ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
 	{"Single line command - @command (expr) { action }", `(?m)@reduce;(?P<command>if|with|range)[sp]\([sp]assign;?[sp](?P<expr>[expr]+)[sp]\)[sp]{[sp](?P<action>[^\n]+?)}[sp]$`, `{{${reduce1} ${command} ${assign}${expr} ${reduce2}}}${action}{{${reduce1} end ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
-- 
2.43.0


From d6b3cfbb8b8820c602dfa0f656481569b30dde56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 29/81] fix: right space eater is applied on local variables

---
 template/razor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index 4ed203e..3bee618 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -133,10 +133,10 @@ var expressions = [][]interface{}{
 	{"Expression @(expr)", `@reduce;\([sp]assign;?[sp](?P<expr>[expr]+)[sp]\)endexpr;`, `{{${reduce1} ${assign}${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
 
 	// Single variables (must be after the expressions because @_ could be confused with a variable in @_-(expr))
-	{"Global variables - @var", `@reduce;(?P<name>[idSel])endexpr;`, `{{${reduce1} $$.${name} ${reduce2}}}`},
 	{"Context variables special - @.var", `@reduce;\.(?P<name>[flexible_id])endexpr;`, `{{${reduce1} get . "${name}" ${reduce2}}}`},
-	{"Global variables special - @var", `@reduce;(?P<name>[flexible_id])endexpr;`, `{{${reduce1} get $$ "${name}" ${reduce2}}}`},
 	{"Local variables - @$var or @.var", `@reduce;(?P<name>[\$\.][\p{L}\d_\.]*)endexpr;`, `{{${reduce1} ${name} ${reduce2}}}`},
+	{"Global variables - @var", `@reduce;(?P<name>[idSel])endexpr;`, `{{${reduce1} $$.${name} ${reduce2}}}`},
+	{"Global variables special - @var", `@reduce;(?P<name>[flexible_id])endexpr;`, `{{${reduce1} get $$ "${name}" ${reduce2}}}`},
 
 	{"Space eater", `@-endexpr;`, `{{- "" -}}`},
 
-- 
2.43.0


From 8707128fc9800f611bd8a7acf3aeb1d136877044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 30/81] fix: variables can begin by else or end in razor

---
 template/razor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index 3bee618..4f25026 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -103,8 +103,8 @@ var expressions = [][]interface{}{
 	{"Single line command - @command (expr) action;", `@reduce;(?P<command>if|with|range)[sp]\([sp]assign;?[sp](?P<expr>[expr]+)[sp]\)[sp](?P<action>[^\n]+?)[sp];`, `{{${reduce1} ${command} ${assign}${expr} ${reduce2}}}${action}{{${reduce1} end ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
 	{"Single line command - @command (expr) { action }", `(?m)@reduce;(?P<command>if|with|range)[sp]\([sp]assign;?[sp](?P<expr>[expr]+)[sp]\)[sp]{[sp](?P<action>[^\n]+?)}[sp]$`, `{{${reduce1} ${command} ${assign}${expr} ${reduce2}}}${action}{{${reduce1} end ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
 	{"Command(expr)", `@reduce;(?P<command>if|else[sp]if|block|with|define|range)[sp]\([sp]assign;?[sp](?P<expr>[expr]+)[sp]\)[sp]`, `{{${reduce1} ${command} ${assign}${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
-	{"else", `@reduce;else`, "{{${reduce1} else ${reduce2}}}"},
-	{"various ends", `@reduce;(?P<command>end[sp](if|range|define|block|with|for[sp]each|for|))endexpr;`, "{{${reduce1} end ${reduce2}}}"},
+	{"else", `@reduce;else\b`, "{{${reduce1} else ${reduce2}}}"},
+	{"various ends", `@reduce;(?P<command>end(?:[sp](?:if|range|define|block|with|for[sp]each|for)\b|\b[sp]))endexpr;`, "{{${reduce1} end ${reduce2}}}"},
 
 	// Assignations
 	{"Assign - @var := value", `(?P<type>@(\$|\.|\$\.)?)(?P<id>[flexible_id])[sp](?P<assign>assign_op;)[sp](?P<expr>[expr]+)endexpr;`, ``, replacementFunc(assignExpression)},
-- 
2.43.0


From aad434b3c786aaa82fd807973530166dcb4262b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:22 +0000
Subject: [PATCH 31/81] fix: the selection on the result of a razor function
 stops on the semicolon

---
 template/razor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/template/razor.go b/template/razor.go
index 4f25026..1bedfe3 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -112,6 +112,7 @@ var expressions = [][]interface{}{
 	{"Assign - @{var := expr}", `(?P<type>@{)(?P<id>[id_comp])[sp](?P<assign>assign_op;)[sp](?P<expr>[expr]+?)}endexpr;`, ``, replacementFunc(assignExpressionAcceptError)},
 
 	// Function calls
+	{"Function call followed by selection - @func(args...).id;", `function;(?P<selection>(?:\.[id])+)[sp];`, `{{${reduce1} (${expr})${selection} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Function call followed by expression - @func(args...).args", `function;selector;endexpr;`, `@${reduce}((${expr})${selection});`, replacementFunc(expressionParserSkipError)},
 	{"Function call with slice - @func(args...)[...]", `function;index;endexpr;`, `{{${reduce1} ${slicer} (${expr}) ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Function call - @func(args...)", `function;endexpr;`, `{{${reduce1} ${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
-- 
2.43.0


From 36735933029922861150d5a534b5ecda67a030e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 32/81] fix: context variables in razor are not extended by
 what follows their semicolon

---
 template/razor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/razor.go b/template/razor.go
index 1bedfe3..3d063f7 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -121,7 +121,7 @@ var expressions = [][]interface{}{
 	// Variables
 	{"Local variables - @{var}", `@reduce;{[sp](?P<name>[\p{L}\d_\.]*)[sp]}(?P<end>endexpr;)`, `@${reduce}($$${name});`},
 	{"Global variables followed by expression", `@reduce;(?P<expr>[idSel]selector;index;?)(?P<end>endexpr;)`, `@${reduce}(${expr});`, replacementFunc(expressionParserSkipError)},
-	{"Context variables - @.var", `@reduce;\.(?P<name>[idSel])endexpr;`, `@${reduce}(.${name})`},
+	{"Context variables - @.var", `@reduce;\.(?P<name>[idSel])endexpr;`, `@${reduce}(.${name});`},
 	{"Global variables with slice - @var[...]", `@reduce;(?P<name>[idSel])index;endexpr;`, `{{${reduce1} ${slicer} $$.${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Context variables special with slice", `@reduce;\.(?P<expr>(?P<name>[flexible_id])index;)endexpr;`, `{{${reduce1} ${slicer} (get . "${name}") ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Global variables special with slice", `@reduce;(?P<expr>(?P<name>[flexible_id])index;)endexpr;`, `{{${reduce1} ${slicer} (get $$ "${name}") ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
-- 
2.43.0


From ce5e63a84aaaa6bb4090b7de21962c4c9d3e4def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:36 +0000
Subject: [PATCH 33/81] fix: razor expressions with a custom right delimiter

---
 template/razor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/razor.go b/template/razor.go
index 3d063f7..9742bc1 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -177,7 +177,7 @@ func (t *Template) ensureInit() {
 			re := strings.Replace(expr[1].(string), "@", regexp.QuoteMeta(t.RazorDelim()), -1)
 			re = strings.Replace(re, "{{", regexp.QuoteMeta(t.LeftDelim()), -1)
 			re = strings.Replace(re, "}}", regexp.QuoteMeta(t.RightDelim()), -1)
-			replace := strings.Replace(strings.Replace(strings.Replace(expr[2].(string), "{{", t.LeftDelim(), -1), "}}", t.RightDelim(), -1), "@", t.RazorDelim(), -1)
+			replace := strings.NewReplacer("{{", t.LeftDelim(), "}}}", "}"+t.RightDelim(), "}}", t.RightDelim(), "@", t.RazorDelim()).Replace(expr[2].(string))
 			var exprParser replacementFunc
 			if len(expr) >= 4 {
 				exprParser = expr[3].(replacementFunc)
-- 
2.43.0


From e0e241f5a66fb45c786f83320c85a035f7a6c475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:35 +0000
Subject: [PATCH 34/81] fix: function calls with a custom razor delimiter

---
 template/razor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/template/razor.go b/template/razor.go
index 9742bc1..83e5b67 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -186,6 +186,7 @@ func (t *Template) ensureInit() {
 			// We apply replacements in regular expression to make them regex compliant
 			for i := range customMetaclass {
 				key, value := customMetaclass[i][0], customMetaclass[i][1]
+				value = strings.Replace(value, "@", regexp.QuoteMeta(t.RazorDelim()), -1)
 				re = strings.Replace(re, key, value, -1)
 			}
 
@@ -195,7 +196,9 @@ func (t *Template) ensureInit() {
 				// that go from the most generic expression to the most specific one
 				subExpressions = make([]string, len(expressionList))
 				for i := range expressionList {
-					subExpressions[i] = strings.Replace(re, expressionKey, expressionList[i], -1)
+					// The class excludes the first character of the razor delimiter
+					class := strings.Replace(expressionList[i], "@", regexp.QuoteMeta(string([]rune(t.RazorDelim())[0])), 1)
+					subExpressions[i] = strings.Replace(re, expressionKey, class, -1)
 				}
 			}
 
-- 
2.43.0


From 4d6ac483f3a0d522d1a264b3e837538022c8edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:46 +0000
Subject: [PATCH 35/81] fix: razor assignations with a custom razor delimiter

---
 template/razor_repl_assign.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/razor_repl_assign.go b/template/razor_repl_assign.go
index f94df78..dab8f4f 100644
--- a/template/razor_repl_assign.go
+++ b/template/razor_repl_assign.go
@@ -17,7 +17,7 @@ func assignExpressionAcceptError(repl replacement, match string) string {
 
 func assignExpressionInternal(repl replacement, match string, acceptError bool) string {
 	matches, _ := reutils.MultiMatch(match, repl.re)
-	tp := matches["type"]
+	tp := strings.Replace(matches["type"], repl.delimiters[2], "@", 1) // The razor delimiter may be customized
 	id := matches["id"]
 	expr := matches["expr"]
 	assign := matches["assign"]
-- 
2.43.0


From 31e8c5e08490af6b34c1112ab1f2693cea5b8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:50 +0000
Subject: [PATCH 36/81] fix: strings in expressions are not protected with a
 custom razor delimiter

---
 template/razor_repl_assign.go |  2 +-
 template/razor_repl_expr.go   | 21 ++++++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/template/razor_repl_assign.go b/template/razor_repl_assign.go
index dab8f4f..5a7e07d 100644
--- a/template/razor_repl_assign.go
+++ b/template/razor_repl_assign.go
@@ -54,7 +54,7 @@ func assignExpressionInternal(repl replacement, match string, acceptError bool)
 	}
 
 	var err error
-	if expr, err = expressionParserInternal(exprRepl, expr, true, internal); err != nil && !acceptError {
+	if expr, err = expressionParserInternal(repl.expression(), expr, true, internal); err != nil && !acceptError {
 		return match
 	}
 
diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 3206a92..0ad4a45 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -63,7 +63,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		// We first protect strings declared in the expression
 		protected, includedStrings := String(expression).Protect()
 		for i := range includedStrings {
-			includedStrings[i] = includedStrings[i].Replace("@", literalAt)
+			includedStrings[i] = includedStrings[i].Replace(repl.razorDelim(), literalAt)
 		}
 
 		// We transform the expression into a valid go statement
@@ -104,7 +104,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 			InternalLog.Errorf("Only one : character is allowed in slice expression: %s", match)
 		}
 		for i := range values {
-			if values[i], err = expressionParserInternal(exprRepl, values[i], true, true); err != nil {
+			if values[i], err = expressionParserInternal(repl.expression(), values[i], true, true); err != nil {
 				return match, err
 			}
 		}
@@ -114,7 +114,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 	}
 
 	if selectExpr := matches["selection"]; selectExpr != "" {
-		if selectExpr, err = expressionParserInternal(exprRepl, selectExpr, true, true); err != nil {
+		if selectExpr, err = expressionParserInternal(repl.expression(), selectExpr, true, true); err != nil {
 			return match, err
 		}
 		repl.replace = strings.Replace(repl.replace, "${selection}", strings.Replace(selectExpr, "$", "$$", -1), -1)
@@ -161,6 +161,21 @@ var exprRepl = replacement{
 	replace: `${expr}`,
 }
 
+// razorDelim returns the razor delimiter in effect
+func (r replacement) razorDelim() string {
+	if len(r.delimiters) > 2 {
+		return r.delimiters[2]
+	}
+	return "@"
+}
+
+// expression returns the replacement used to convert a sub expression
+func (r replacement) expression() replacement {
+	result := exprRepl
+	result.delimiters = r.delimiters
+	return result
+}
+
 func indexExpression(expr string) string {
 	expr = negativeSlice.ReplaceAllString(expr, "[${index}:0]")
 	expr = strings.Replace(expr, "[]", "[0:-1]", -1)
-- 
2.43.0


From 5c695cead13a80e98ee32c3f8953f68a18087735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:55 +0000
Subject: [PATCH 37/81] fix: autoWrap with a custom razor delimiter

---
 template/razor_repl_autowrap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template/razor_repl_autowrap.go b/template/razor_repl_autowrap.go
index fc37425..39e0e44 100644
--- a/template/razor_repl_autowrap.go
+++ b/template/razor_repl_autowrap.go
@@ -17,7 +17,8 @@ func autoWrap(repl replacement, match string) string {
 		return match
 	}
 	after := context[len(args):]
-	return fmt.Sprintf("@%s%sjoin(\"%s\", formatList(\"%s%%v%s\", %s)",
+	return fmt.Sprintf("%s%s%sjoin(\"%s\", formatList(\"%s%%v%s\", %s)",
+		repl.razorDelim(),
 		matches["nl"],
 		matches["reduce"],
 		iif(matches["nl"] != "", "\\n", ""),
-- 
2.43.0


From ccca9bcce62b5a541a04c6eea6e1a09aef682209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 38/81] fix: percent signs in the text around autoWrap are
 taken as format verbs

---
 template/razor_repl_autowrap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/template/razor_repl_autowrap.go b/template/razor_repl_autowrap.go
index 39e0e44..a5bc106 100644
--- a/template/razor_repl_autowrap.go
+++ b/template/razor_repl_autowrap.go
@@ -22,8 +22,8 @@ func autoWrap(repl replacement, match string) string {
 		matches["nl"],
 		matches["reduce"],
 		iif(matches["nl"] != "", "\\n", ""),
-		before.Escape(),
-		after.RestoreProtected(strings).Escape(),
+		before.Replace("%", "%%").Escape(),
+		after.RestoreProtected(strings).Replace("%", "%%").Escape(),
 		args.RestoreProtected(strings)[1:],
 	)
 }
-- 
2.43.0


From a38c5d58fd6377c7f53e266dd5dbb70f6f527cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 39/81] fix: the context is altered by a template that reports
 an error

---
 template/template_error_handler.go | 3 ++-
 template/template_handler.go       | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index 67241fc..a154025 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -19,6 +19,7 @@ type errorHandler struct {
 	Code     string   // Modified code
 	Lines    []string // Original source code as an array of string (one per line)
 	Try      int      // The current evaluation try
+	Clone    bool     // The context must be preserved
 }
 
 func (t errorHandler) Handler(err error) (string, bool, error) {
@@ -163,7 +164,7 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			if err != nil {
 				InternalLog.Infof("Retrying %d with:\n%s", t.Try, color.HiBlackString(String(newCode).AddLineNumber(0).Str()))
 			}
-			result, changed, err2 := t.processContentInternal(newCode, t.Filename, t.Lines, t.Try+1, false, nil)
+			result, changed, err2 := t.processContentInternal(newCode, t.Filename, t.Lines, t.Try+1, t.Clone, nil)
 			if err2 != nil {
 				if err != nil {
 					if err.Error() == err2.Error() {
diff --git a/template/template_handler.go b/template/template_handler.go
index 456873e..0aa5768 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -141,6 +141,7 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 		Code:     originalContent,
 		Lines:    originalSourceLines,
 		Try:      retryCount,
+		Clone:    cloneContext,
 	}
 
 	topCall := th.Lines == nil
-- 
2.43.0


From 20aedeb5f741baadf799551d6a6d54711fb82fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:55 +0000
Subject: [PATCH 40/81] fix: included templates see the values of their parent
 and do not alter their arguments

The template was first executed without the values of its parent, then once more if that gave an error: functions such as
hasKey or default got a wrong answer, side effects were done twice, razor was converted twice and the supplied
dictionary was filled with the values of the context.
---
 template/extra_runtime.go | 37 ++++++++-----------------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 57c7393..b4c741a 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -430,10 +430,6 @@ func (t *Template) exec(command string, args ...interface{}) (interface{}, error
 }
 
 func (t *Template) runTemplate(source string, args ...interface{}) (result, filename string, err error) {
-	return optimizedRunTemplate(t, false, source, args...)
-}
-
-func optimizedRunTemplate(t *Template, withClone bool, source string, args ...interface{}) (result, filename string, err error) {
 	if source == "" {
 		return
 	}
@@ -441,22 +437,18 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 
 	parentContext := t.context
 	defer func() { t.context = parentContext }()
-	var context collections.IDictionary
-	if withClone {
-		context = t.Context().Clone()
-	} else {
-		context = collections.CreateDictionary()
-		for _, k := range t.constantKeys {
-			context.Set(k, t.Context().Get(k))
-		}
-	}
+
+	// The template sees all the values of its parent, but it must not be able to alter them (the parent of the parent
+	// is dropped before cloning since it is replaced)
+	context := collections.CreateDictionary().Merge(t.Context()).Flush("_").Clone()
 	context.Set("_", parentContext)
 	t.context = context
 
 	switch len(args) {
 	case 1:
 		if arguments, err := collections.TryAsDictionary(args[0]); err == nil {
-			context = arguments.Merge(context)
+			// The supplied arguments must not be altered
+			context = collections.CreateDictionary().Merge(arguments, context)
 			break
 		}
 		fallthrough
@@ -495,23 +487,10 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 		internalTemplate = inline
 	}
 
-	if withClone {
-		// Ignore missing keys
-		internalTemplate.Option("missingkey=default")
-	} else {
-		// Return error on missing keys in order to retry but with context cloning
-		// and ensure that we restore the original behavior on error handling
-		defer func() { internalTemplate.Option("missingkey=default") }()
-		internalTemplate.Option("missingkey=error")
-	}
-
 	// We execute the resulting template
+	internalTemplate.Option("missingkey=default")
 	if err = internalTemplate.Execute(&out, context); err != nil {
-		if !withClone {
-			InternalLog.Debug("Running template with context cloning because:", err)
-			t.context = parentContext
-			return optimizedRunTemplate(t, true, source, args...)
-		}
+		return
 	}
 
 	result = out.String()
-- 
2.43.0


From 511a6d301d1148c0a01773b40a6c46b21043bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:34 +0000
Subject: [PATCH 41/81] fix: Template.Merge adds the values to the context

---
 template/template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template.go b/template/template.go
index 070ebb8..6784787 100644
--- a/template/template.go
+++ b/template/template.go
@@ -346,7 +346,7 @@ func (t *Template) Add(key string, value interface{}) {
 // Merge allows adding multiple values to the template context.
 // The context and values must both be dictionary to use that function, otherwise, it will panic.
 func (t *Template) Merge(values interface{}) {
-	collections.AsDictionary(t.context).Add(key, collections.AsDictionary(values))
+	collections.AsDictionary(t.context).Merge(collections.AsDictionary(values))
 }
 
 // Context returns the context of the Template as a collections.IDictionary.
-- 
2.43.0


From 5c169d61fa9b81bd71a176baa3e6ccb55cc868a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:40 +0000
Subject: [PATCH 42/81] fix: a script processed last does not force the output
 of the next templates to stdout

---
 template/template_handler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/template/template_handler.go b/template/template_handler.go
index 0aa5768..f51d5e1 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -24,6 +24,7 @@ func (t *Template) ProcessTemplatesWithHandler(sourceFolder, targetFolder string
 	resultFiles = make([]string, 0, len(templates))
 
 	print := t.options[OutputStdout]
+	defer func() { t.options[OutputStdout] = print }()
 
 	var errors errors.Array
 	for i := range templates {
-- 
2.43.0


From 1307c750ec4c93cfdf6052957d3ccf8e43986f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:20 +0000
Subject: [PATCH 43/81] fix: all and withoutSprig are randomly missing or doing
 the same thing

Both were declared with the alias without, the one that was kept depended on the order of a map iteration.
---
 template/extra_sprig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_sprig.go b/template/extra_sprig.go
index 4b21926..ce6bcc8 100644
--- a/template/extra_sprig.go
+++ b/template/extra_sprig.go
@@ -224,7 +224,7 @@ var sprigFuncRef = map[string]struct {
 	"valuesSprig":    {group: sprigDict, description: "Is similar to 'keys', except it returns a new 'list' with all the values of the source 'dict' (only one dictionary is supported).", aliases: []string{"values"}},
 
 	// Lists functions
-	"all":          {group: sprigList, description: "Filters items out of a list.", aliases: []string{"without"}},
+	"all":          {group: sprigList, description: "Takes a list of values and returns true if all values are non-empty."},
 	"any":          {group: sprigList, description: "Takes a list of values and returns true if any values are non-empty."},
 	"appendSprig":  {group: sprigList, description: "Append a new item to an existing list, creating a new list.", aliases: []string{"append"}},
 	"chunk":        {group: sprigList, description: "Split a list into chunks of given size, use chunk size list. This is useful for pagination.", arguments: []string{"nbChunks", "list"}},
-- 
2.43.0


From 584edc884357e43e8890101ac6c871810a5517e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 44/81] fix: find the files of folders whose name contains
 special characters such as brackets

---
 utils/io.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/io.go b/utils/io.go
index 2589028..d86c9ea 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"os"
 	"path/filepath"
+	"runtime"
 	"strings"
 
 	"github.com/coveooss/gotemplate/v3/collections"
@@ -84,9 +85,15 @@ func realPath(path string) string {
 	return path
 }
 
+// The name of a folder is not a pattern, so its special characters must be escaped before giving it to Glob
+var globEscaper = strings.NewReplacer(`*`, `\*`, `?`, `\?`, `[`, `\[`, `\`, `\\`)
+
 // FindFiles returns the list of files in the specified folder that match one of the supplied patterns
 func findFiles(folder string, patterns ...string) ([]string, error) {
 	var matches []string
+	if runtime.GOOS != "windows" {
+		folder = globEscaper.Replace(folder)
+	}
 	found := map[string]bool{}
 	for _, pattern := range patterns {
 		files, err := filepath.Glob(filepath.Join(folder, pattern))
-- 
2.43.0


From 0e8fec7aefca92ebe199d758d7d986cc22ee4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:22 +0000
Subject: [PATCH 45/81] fix: a file that cannot be written does not prevent the
 processing of the other files

---
 template/template_handler.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index f51d5e1..3621724 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -109,14 +109,22 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 		return
 	}
 
-	mode := must(os.Stat(template)).(os.FileInfo).Mode()
+	info, err := os.Stat(template)
+	if err != nil {
+		return
+	}
+	mode := info.Mode()
 
 	if sourceFolder != targetFolder {
-		must(os.MkdirAll(filepath.Dir(resultFile), 0777))
+		if err = os.MkdirAll(filepath.Dir(resultFile), 0777); err != nil {
+			return
+		}
 	} else if !isTemplate && !t.options[Overwrite] {
 		newName := template + ".original"
 		InternalLog.Infof("%s => %s", utils.Relative(t.folder, template), utils.Relative(t.folder, newName))
-		must(os.Rename(template, template+".original"))
+		if err = os.Rename(template, newName); err != nil {
+			return
+		}
 	}
 	InternalLog.Infoln("Writing file", utils.Relative(t.folder, resultFile))
 
-- 
2.43.0


From 7c136d3bc30f4ef5a02389785b42c84bde076f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:27 +0000
Subject: [PATCH 46/81] fix: exclude files in folders whose name contains
 special characters such as brackets

---
 utilities.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/utilities.go b/utilities.go
index 722d131..3587d18 100644
--- a/utilities.go
+++ b/utilities.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"runtime"
 	"runtime/debug"
 	"strings"
 
@@ -40,6 +41,8 @@ func readStdin() string {
 
 var stdinContent string
 
+var patternEscaper = strings.NewReplacer(`*`, `\*`, `?`, `\?`, `[`, `\[`, `{`, `\{`, `}`, `\}`, `\`, `\\`)
+
 func exclude(files []string, patterns []string) (result []string, err error) {
 	if patterns = extend(patterns); len(patterns) == 0 {
 		// There is no exclusion pattern, so we return the list of files as is
@@ -48,6 +51,15 @@ func exclude(files []string, patterns []string) (result []string, err error) {
 	}
 	result = make([]string, 0, len(files))
 
+	// The name of the current folder is not a pattern, so its special characters must be escaped
+	current, err := filepath.Abs("")
+	if err != nil {
+		return
+	}
+	if runtime.GOOS != "windows" {
+		current = patternEscaper.Replace(current)
+	}
+
 	for i, file := range files {
 		file, err = filepath.Abs(file)
 		if err != nil {
@@ -55,9 +67,10 @@ func exclude(files []string, patterns []string) (result []string, err error) {
 		}
 		var excluded bool
 		for _, pattern := range patterns {
-			pattern, err = filepath.Abs(pattern)
-			if err != nil {
-				return
+			if filepath.IsAbs(pattern) {
+				pattern = filepath.Clean(pattern)
+			} else {
+				pattern = filepath.Join(current, pattern)
 			}
 			if excluded, err = doublestar.PathMatch(pattern, file); err != nil {
 				return
-- 
2.43.0


From e346b55e39d70454950dbf3ceb85b4b234fd3769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:34 +0000
Subject: [PATCH 47/81] fix: substitutions are applied to the files that do not
 contain code

---
 template/template_handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 3621724..6745437 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -211,7 +211,8 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 
 		if t.options[RenderingDisabled] || !t.IsCode(th.Code) {
 			// There is no template element to evaluate or the template rendering is off
-			return revertReplacements(th.Code), false, nil
+			changed = !t.options[RenderingDisabled] && t.substitute(originalContent) != originalContent
+			return revertReplacements(th.Code), changed, nil
 		}
 
 		InternalLog.Debug("GoTemplate processing of ", th.Filename)
-- 
2.43.0


From a6876427178530229aebc951f78e458ec52212c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:15 +0000
Subject: [PATCH 48/81] fix: find the files recursively when the folder is a
 symbolic link

---
 utils/io.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index d86c9ea..9130f01 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -33,8 +33,9 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 			return results, nil
 		}
 
-		filepath.Walk(folder, func(path string, info os.FileInfo, err error) error {
-			if info == nil || path == folder {
+		// The trailing separator is required to walk through the folder when it is a symbolic link
+		filepath.Walk(folder+string(filepath.Separator), func(path string, info os.FileInfo, err error) error {
+			if info == nil || filepath.Clean(path) == folder {
 				return nil
 			}
 			if info.IsDir() {
-- 
2.43.0


From 593d159f43e52007ad9a8073f9b2fb2a87915726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:22 +0000
Subject: [PATCH 49/81] fix: a file that matches several patterns is processed
 only once

---
 utils/io.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index 9130f01..7946af9 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -24,9 +24,10 @@ func FindFiles(folder string, recursive, followLinks bool, patterns ...string) (
 // FindFilesMaxDepth returns the list of the files matching the array of patterns
 func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns ...string) ([]string, error) {
 	visited := map[string]bool{}
+	found := map[string]bool{}
 	var walker func(folder string) ([]string, error)
 	walker = func(folder string) ([]string, error) {
-		results := must(findFiles(folder, patterns...)).([]string)
+		results := must(findFiles(folder, found, patterns...)).([]string)
 		folder, _ = filepath.Abs(folder)
 		visited[realPath(folder)] = true
 		if maxDepth == 0 {
@@ -44,7 +45,7 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 					return filepath.SkipDir
 				}
 				visited[realPath(path)] = true
-				files, err := findFiles(path, patterns...)
+				files, err := findFiles(path, found, patterns...)
 				if err != nil {
 					return err
 				}
@@ -89,13 +90,12 @@ func realPath(path string) string {
 // The name of a folder is not a pattern, so its special characters must be escaped before giving it to Glob
 var globEscaper = strings.NewReplacer(`*`, `\*`, `?`, `\?`, `[`, `\[`, `\`, `\\`)
 
-// FindFiles returns the list of files in the specified folder that match one of the supplied patterns
-func findFiles(folder string, patterns ...string) ([]string, error) {
+// FindFiles returns the list of files in the specified folder that match one of the supplied patterns (and that have not already been found)
+func findFiles(folder string, found map[string]bool, patterns ...string) ([]string, error) {
 	var matches []string
 	if runtime.GOOS != "windows" {
 		folder = globEscaper.Replace(folder)
 	}
-	found := map[string]bool{}
 	for _, pattern := range patterns {
 		files, err := filepath.Glob(filepath.Join(folder, pattern))
 		if err != nil {
-- 
2.43.0


From 45cbb0e862871d53c26f71b77eaeeddcec3b920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:34 +0000
Subject: [PATCH 50/81] fix: a file that is both explicitly supplied and
 matched by a pattern is processed only once

---
 main.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 55a227c..321fcb5 100644
--- a/main.go
+++ b/main.go
@@ -282,7 +282,18 @@ func runGotemplate() (exitCode int) {
 		*includePatterns = append(*includePatterns, "*.gt,*.template")
 	}
 
-	*templates = append(utils.MustFindFilesMaxDepth(*sourceFolder, *recursionDepth, *followSymLinks, extend(*includePatterns)...), *templates...)
+	// The files that are explicitly supplied are not processed twice
+	explicit := make(map[string]bool)
+	for _, template := range *templates {
+		explicit[errors.Must(filepath.Abs(template)).(string)] = true
+	}
+	var files []string
+	for _, file := range utils.MustFindFilesMaxDepth(*sourceFolder, *recursionDepth, *followSymLinks, extend(*includePatterns)...) {
+		if !explicit[file] {
+			files = append(files, file)
+		}
+	}
+	*templates = append(files, *templates...)
 	for i, template := range *templates {
 		if file, err := filepath.Rel(*sourceFolder, template); err == nil {
 			if _, err = os.Stat(file); err == nil {
-- 
2.43.0


From d9f9cda81fc5c3a3cde55863f1b4554e29a646e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:52 +0000
Subject: [PATCH 51/81] fix: do not leave a temporary folder behind when the
 arguments are invalid or when displaying the help

---
 main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 321fcb5..f519ccc 100644
--- a/main.go
+++ b/main.go
@@ -25,7 +25,7 @@ import (
 )
 
 var version = "major.minor.patch # locally built, should be replaced by the build process with -ldflags \"-X main.version=<version number>\""
-var tempFolder = errors.Must(os.MkdirTemp("", "gotemplate-")).(string)
+var tempFolder string
 
 const (
 	envDisableStdinCheck = "GOTEMPLATE_NO_STDIN"
@@ -132,6 +132,9 @@ func runGotemplate() (exitCode int) {
 		}
 	}
 
+	// The temporary folder is created only once the arguments are known to be valid since the program exits if they are not
+	tempFolder = errors.Must(os.MkdirTemp("", "gotemplate-")).(string)
+
 	// We restore back the modified arguments
 	for i := range *templates {
 		(*templates)[i] = strings.TrimPrefix((*templates)[i], "#!!")
-- 
2.43.0


From 875986b3a4905d168ee32c2fe5536371b0cdec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 52/81] fix: unnamed variables are available in ARGS

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 71a4fc3..21de69f 100644
--- a/context.go
+++ b/context.go
@@ -86,7 +86,7 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 					content = nv.value
 				}
 
-				if nv.name == "" && isFileErr {
+				if nv.name == "" && !nv.unnamed && isFileErr {
 					if !nv.required {
 						loadErr = nil
 					}
-- 
2.43.0


From 7e5fb7d50abdba75111cf77a33d281b7a88a5c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:39 +0000
Subject: [PATCH 53/81] fix: variables explicitly defined as strings on the
 command line are not converted to another type

---
 context.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 21de69f..2fd7469 100644
--- a/context.go
+++ b/context.go
@@ -19,6 +19,7 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 		value    interface{}
 		unnamed  bool
 		required bool
+		typed    bool // The value has already been converted to its type
 	}
 
 	if mode != "" {
@@ -53,7 +54,7 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 			data[name] = value
 		}
 		for key, value := range data {
-			nameValuePairs = append(nameValuePairs, fileDef{name: key, value: value})
+			nameValuePairs = append(nameValuePairs, fileDef{name: key, value: value, typed: true})
 		}
 	}
 
@@ -82,7 +83,7 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 				}
 
 				// Finally, we just try to convert the data with the converted value
-				if err := collections.ConvertData(filename, &content); err != nil {
+				if nv.typed || collections.ConvertData(filename, &content) != nil {
 					content = nv.value
 				}
 
-- 
2.43.0


From d533b62e4dd6ff2507bb06133c5e89d2a362b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:03 +0000
Subject: [PATCH 54/81] fix: multi-line strings keep their exact content in
 indented HCL

---
 hcl/utilities.go | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/hcl/utilities.go b/hcl/utilities.go
index 482c960..eeb028e 100644
--- a/hcl/utilities.go
+++ b/hcl/utilities.go
@@ -82,22 +82,11 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 	case int, uint, int64, uint64, float64, bool:
 		result = fmt.Sprint(value)
 	case string:
-		value = fmt.Sprintf("%q", value)
-		if indent != "" && strings.Contains(value, "\\n") {
-			// We unquote the value
-			unIndented := value[1 : len(value)-1]
-			// Then replace escaped characters, other escape chars are \a, \b, \f and \v are not managed
-			unIndented = strings.Replace(unIndented, `\n`, "\n", -1)
-			unIndented = strings.Replace(unIndented, `\\`, "\\", -1)
-			unIndented = strings.Replace(unIndented, `\"`, "\"", -1)
-			unIndented = strings.Replace(unIndented, `\r`, "\r", -1)
-			unIndented = strings.Replace(unIndented, `\t`, "\t", -1)
-			unIndented = collections.UnIndent(unIndented)
-			if strings.HasSuffix(unIndented, "\n") {
-				value = fmt.Sprintf("<<HCLVALUE\n%sHCLVALUE", unIndented)
-			}
+		if indent != "" && heredocRegex.MatchString(value) && !strings.Contains(value, heredocMarker) {
+			result = fmt.Sprintf("<<%[2]s\n%[1]s%[2]s", value, heredocMarker)
+		} else {
+			result = fmt.Sprintf("%q", value)
 		}
-		result = value
 
 	case []interface{}:
 		results := make([]string, len(value))
@@ -121,14 +110,19 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 		var totalLength int
 		var newLine bool
 		for i := range value {
-			if results[i], err = marshalHCL(value[i], fullHcl, false, "", indent); err != nil {
+			elementIndent := indent
+			if _, isString := value[i].(string); isString {
+				// An here document must be alone on its last line, so it cannot be used in a list
+				elementIndent = ""
+			}
+			if results[i], err = marshalHCL(value[i], fullHcl, false, "", elementIndent); err != nil {
 				return
 			}
 			totalLength += len(results[i])
 			newLine = newLine || strings.Contains(results[i], "\n")
 		}
 		if totalLength > 60 && indent != "" || newLine {
-			result = fmt.Sprintf("[\n%s,\n]", collections.Indent(strings.Join(results, ",\n"), prefix+indent))
+			result = fmt.Sprintf("[\n%s,\n]", indentElements(strings.Join(results, ",\n"), prefix+indent))
 		} else {
 			result = fmt.Sprintf("[%s]", strings.Join(results, ifIndent(", ", ",").(string)))
 		}
@@ -214,7 +208,7 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 			break
 		}
 
-		result = fmt.Sprintf("{\n%s\n}", collections.Indent(strings.Join(items, "\n"), prefix+indent))
+		result = fmt.Sprintf("{\n%s\n}", indentElements(strings.Join(items, "\n"), prefix+indent))
 
 	default:
 		debug.PrintStack()
@@ -223,6 +217,17 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 	return
 }
 
+const heredocMarker = "HCLVALUE"
+
+// heredocRegex matches the strings that are unchanged when they are written between here document markers.
+var heredocRegex = regexp.MustCompile(`^([\t[:print:]]*\n)+$`)
+
+// indentElements indents the nested elements, the resulting here documents have to ignore the added indentation.
+func indentElements(elements, indent string) string {
+	elements = strings.ReplaceAll(elements, "<<"+heredocMarker, "<<-"+heredocMarker)
+	return collections.Indent(elements, indent)
+}
+
 func isArrayOfMap(array []interface{}) bool {
 	if len(array) == 0 {
 		return false
-- 
2.43.0


From d5544babaa975b5c67d9dd0fe0ca50fcbf4331dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:08 +0000
Subject: [PATCH 55/81] fix: HCL output is valid for labeled blocks in lists or
 on one line and for keys named true or false

---
 hcl/utilities.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/hcl/utilities.go b/hcl/utilities.go
index eeb028e..d9dc24d 100644
--- a/hcl/utilities.go
+++ b/hcl/utilities.go
@@ -110,12 +110,16 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 		var totalLength int
 		var newLine bool
 		for i := range value {
-			elementIndent := indent
-			if _, isString := value[i].(string); isString {
+			elementIndent, elementFullHcl := indent, fullHcl
+			switch element := value[i].(type) {
+			case string:
 				// An here document must be alone on its last line, so it cannot be used in a list
 				elementIndent = ""
+			case map[string]interface{}:
+				// A block (i.e. key { ... }) is not a valid list element
+				elementFullHcl = fullHcl && singleMap(element) == ""
 			}
-			if results[i], err = marshalHCL(value[i], fullHcl, false, "", elementIndent); err != nil {
+			if results[i], err = marshalHCL(value[i], elementFullHcl, false, "", elementIndent); err != nil {
 				return
 			}
 			totalLength += len(results[i])
@@ -182,6 +186,10 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 						equal = ""
 					}
 				}
+				if fullHcl && isBlock(value[key]) {
+					// There is no assignment between the labels of nested blocks (i.e. key label { ... })
+					equal = ifIndent(" ", "").(string)
+				}
 
 				if strings.Contains(rendered, specialFormat) {
 					items = append(items, strings.Replace(rendered, specialFormat, id(key), -1))
@@ -252,10 +260,19 @@ func singleMap(m map[string]interface{}) string {
 	return ""
 }
 
+// isBlock returns true if the value is rendered as a labeled block.
+func isBlock(value interface{}) bool {
+	if list, isList := value.([]interface{}); isList && len(list) == 1 {
+		value = list[0]
+	}
+	element, isMap := value.(map[string]interface{})
+	return isMap && singleMap(element) != ""
+}
+
 var identifierRegex = regexp.MustCompile(`^[A-Za-z_][\w-]*$`)
 
 func id(key string) string {
-	if identifierRegex.MatchString(key) {
+	if identifierRegex.MatchString(key) && key != "true" && key != "false" {
 		return key
 	}
 	// The identifier contains characters that may be considered invalid, we have to quote it
-- 
2.43.0


From 4aab979390f3e432810852bb3e742d82f36992bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:02 +0000
Subject: [PATCH 56/81] fix: toBash quotes the values that bash would interpret
 and keeps the empty list elements

---
 collections/convert_data.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/collections/convert_data.go b/collections/convert_data.go
index 26ba7b6..c11aad7 100644
--- a/collections/convert_data.go
+++ b/collections/convert_data.go
@@ -79,8 +79,8 @@ func ToBash(value interface{}) string {
 func toBash(value interface{}, level int) (result string) {
 	if value, isString := value.(string); isString {
 		result = value
-		if strings.ContainsAny(value, " \t\n[]()") {
-			result = fmt.Sprintf("%q", value)
+		if strings.ContainsAny(value, bashSpecialChars) {
+			result = bashQuote(value)
 		}
 		return
 	}
@@ -311,8 +311,15 @@ func IsExported(id string) bool {
 }
 
 func quote(s string) string {
-	if strings.ContainsAny(s, " \t,[]()") {
-		s = fmt.Sprintf("%q", s)
+	if s == "" || strings.ContainsAny(s, ","+bashSpecialChars) {
+		s = bashQuote(s)
 	}
 	return s
 }
+
+const bashSpecialChars = " \t\r\n[](){}<>|&;#'\"\\`*?~"
+
+var bashEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "`", "\\`")
+
+// bashQuote returns a bash string, variables are still interpolated.
+func bashQuote(s string) string { return `"` + bashEscaper.Replace(s) + `"` }
-- 
2.43.0


From 3263312360466f2138ced420efd9c1f2c739e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:03 +0000
Subject: [PATCH 57/81] fix: char supports all Unicode characters

---
 template/extra_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_data.go b/template/extra_data.go
index 13ee9af..11a30bc 100644
--- a/template/extra_data.go
+++ b/template/extra_data.go
@@ -280,7 +280,7 @@ func (t *Template) addDataFuncs() {
 func toChar(value interface{}) (r interface{}, err error) {
 	defer func() { err = trapError(err, recover()) }()
 	return process(value, func(a interface{}) interface{} {
-		return string(byte(toInt(a)))
+		return string(rune(toInt(a)))
 	})
 }
 
-- 
2.43.0


From 838b1589202bba56625a16effd6545ad05880138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 58/81] fix: id accepts any replacement text

---
 template/extra_utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/template/extra_utils.go b/template/extra_utils.go
index cb20a9c..c1c79e9 100644
--- a/template/extra_utils.go
+++ b/template/extra_utils.go
@@ -185,15 +185,14 @@ func id(id string, replace ...interface{}) string {
 	if replacement != "_" {
 		// If the replacement string is not the default one, we generate a special substituter to remove duplicates
 		// taking into account regex special chars such as +, ?, etc.
-		dup = regexp.MustCompile(fmt.Sprintf(`(?:%s)+`, regexSpecial.ReplaceAllString(replacement, `\$0`)))
+		dup = regexp.MustCompile(fmt.Sprintf(`(?:%s)+`, regexp.QuoteMeta(replacement)))
 	}
 
-	return dup.ReplaceAllString(validChars.ReplaceAllString(id, replacement), replacement)
+	return dup.ReplaceAllLiteralString(validChars.ReplaceAllLiteralString(id, replacement), replacement)
 }
 
 var validChars = regexp.MustCompile(`[^\p{L}\d_]`)
 var duplicateUnderscore = regexp.MustCompile(`_+`)
-var regexSpecial = regexp.MustCompile(`[\+\.\?\(\)\[\]\{\}\\]`)
 
 func repeat(n int, a interface{}) (result collections.IGenericList, err error) {
 	if n < 0 {
-- 
2.43.0


From 0c55fa42f17df7e32ea9c931364a65ca577a11c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 59/81] fix: the table of functions can be used by several
 engines at the same time

---
 template/func_table.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/template/func_table.go b/template/func_table.go
index 1cb2b1d..ce90e69 100644
--- a/template/func_table.go
+++ b/template/func_table.go
@@ -233,7 +233,10 @@ func (t *Template) addFunctions(funcMap funcTableMap) *Template {
 		t.functions = make(funcTableMap)
 	}
 	for key, value := range funcMap {
-		value.name = key
+		if value.name != key {
+			// The entries are shared between the templates, so they should not be modified once they have been named
+			value.name = key
+		}
 		t.functions[key] = value
 		for i := range value.aliases {
 			funcMap[value.aliases[i]] = &FuncInfo{alias: value, function: value.function, name: value.aliases[i]}
@@ -246,9 +249,11 @@ func (t *Template) addFunctions(funcMap funcTableMap) *Template {
 
 // Completes example that are not fully described.
 func (t *Template) completeExamples() string {
-	for _, function := range t.functions {
-		for i := range function.examples {
-			example := &function.examples[i]
+	completed := make(map[string][]Example)
+	for _, name := range t.getFunctions() {
+		examples := append([]Example(nil), t.functions[name].examples...)
+		for i := range examples {
+			example := &examples[i]
 			if example.Razor != "" && example.Template == "" {
 				result, _ := t.applyRazor([]byte(example.Razor))
 				example.Template = string(result)
@@ -260,6 +265,13 @@ func (t *Template) completeExamples() string {
 				}
 			}
 		}
+		if len(examples) > 0 {
+			completed[name] = examples
+		}
+	}
+	// The functions table may have been rebuilt while the examples were processed
+	for name, examples := range completed {
+		t.functions[name].examples = examples
 	}
 	return ""
 }
-- 
2.43.0


From be197fdac679b094c63065fd0014f8c45daec144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:36 +0000
Subject: [PATCH 60/81] fix: the separator of a substitute expression could be
 any character

---
 utils/substitute.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/substitute.go b/utils/substitute.go
index 40ff6b3..87a4b41 100644
--- a/utils/substitute.go
+++ b/utils/substitute.go
@@ -21,7 +21,7 @@ func InitReplacers(replacers ...string) []RegexReplacer {
 		if replacers[i] == "" {
 			errors.Raise("Bad replacer %s", replacers[i])
 		}
-		expression := strings.Split(replacers[i], string(replacers[i][0]))
+		expression := strings.Split(replacers[i], string([]rune(replacers[i])[0]))
 		if len(expression) != 3 || expression[1] == "" {
 			errors.Raise("Bad replacer %s", replacers[i])
 		}
-- 
2.43.0


From 009677ad45f2fa77af0069a9ad2fe25167c93f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:09 +0000
Subject: [PATCH 61/81] fix: errors raised by the aliases of raise and assert
 are reported the same way

---
 template/template_error_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index a154025..b3ea9ac 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -193,7 +193,7 @@ func init() {
 	execPrefix := "(?s)^" + linePrefix + `executing ".*" at <` + p(tagCode, `.*`) + `>: `
 	templateErrors := []string{
 		execPrefix + `map has no entry for key "` + p(tagKey, `.*`) + `"`,
-		execPrefix + `(?s)error calling (raise|assert): ` + p(tagMsg, `.*`),
+		execPrefix + `(?s)error calling (raise(Error)?|assert(ion)?): ` + p(tagMsg, `.*`),
 		execPrefix + p(tagErr, `.*`),
 		linePrefix + p(tagErr, `undefined variable "`+p(tagValue, `.*`)+`"`),
 		linePrefix + p(tagErr, "unclosed action"+" started at .*:"+p(tagActualLine, `\d+`)),
-- 
2.43.0


From a7beefec3870733fd82144f2e6e37879ae7c6927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:13 +0000
Subject: [PATCH 62/81] fix: until is not an alias of itself

---
 template/extra_sprig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_sprig.go b/template/extra_sprig.go
index ce6bcc8..2a4dab0 100644
--- a/template/extra_sprig.go
+++ b/template/extra_sprig.go
@@ -162,7 +162,7 @@ var sprigFuncRef = map[string]struct {
 	"subSprig":   {group: sprigMath, description: "Subtracts a number from another number.`", aliases: []string{"sub"}},
 
 	"seq":       {group: sprigMath, description: "Works like the bash seq command."},
-	"until":     {group: sprigMath, description: "Builds a range of integers.", aliases: []string{"until"}},
+	"until":     {group: sprigMath, description: "Builds a range of integers."},
 	"untilStep": {group: sprigMath, description: "Generates a list of counting integers. But it allows you to define a start, stop, and step"},
 
 	// Defaults
-- 
2.43.0


From 63df7e935bf080053d476179303dbea2876fa6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:50 +0000
Subject: [PATCH 63/81] fix: a script file made of an unknown command is an
 error

---
 utils/exec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/exec.go b/utils/exec.go
index e771e97..feba645 100644
--- a/utils/exec.go
+++ b/utils/exec.go
@@ -57,6 +57,7 @@ func GetCommandFromFile(filename string, args ...interface{}) (cmd *exec.Cmd, er
 			strArgs = append(split[1:], strArgs...)
 		} else {
 			// The command does not exist
+			err = errPath
 			return
 		}
 	}
-- 
2.43.0


From 5e43c8da4297fdd8f16fc20352087740b6633327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:21 +0000
Subject: [PATCH 64/81] fix: an invalid file pattern is reported as an error

---
 main.go     | 7 ++++++-
 utils/io.go | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index f519ccc..3d4843e 100644
--- a/main.go
+++ b/main.go
@@ -291,7 +291,12 @@ func runGotemplate() (exitCode int) {
 		explicit[errors.Must(filepath.Abs(template)).(string)] = true
 	}
 	var files []string
-	for _, file := range utils.MustFindFilesMaxDepth(*sourceFolder, *recursionDepth, *followSymLinks, extend(*includePatterns)...) {
+	found, err := utils.FindFilesMaxDepth(*sourceFolder, *recursionDepth, *followSymLinks, extend(*includePatterns)...)
+	if err != nil {
+		errors.Printf("Invalid patterns %v: %v", *includePatterns, err)
+		return 1
+	}
+	for _, file := range found {
 		if !explicit[file] {
 			files = append(files, file)
 		}
diff --git a/utils/io.go b/utils/io.go
index 7946af9..e37d4d5 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -27,7 +27,10 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 	found := map[string]bool{}
 	var walker func(folder string) ([]string, error)
 	walker = func(folder string) ([]string, error) {
-		results := must(findFiles(folder, found, patterns...)).([]string)
+		results, err := findFiles(folder, found, patterns...)
+		if err != nil {
+			return nil, err
+		}
 		folder, _ = filepath.Abs(folder)
 		visited[realPath(folder)] = true
 		if maxDepth == 0 {
-- 
2.43.0


From 5990bb4f8f676d172a8a95274f3d3fff9827f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:24 +0000
Subject: [PATCH 65/81] fix: a source which is not a folder is reported as an
 error

---
 main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 3d4843e..0a853c3 100644
--- a/main.go
+++ b/main.go
@@ -279,7 +279,10 @@ func runGotemplate() (exitCode int) {
 		return 0
 	}
 
-	errors.Must(os.Chdir(*sourceFolder))
+	if err := os.Chdir(*sourceFolder); err != nil {
+		errors.Print(err)
+		return 1
+	}
 	if !*forceStdin && len(*templates) == 0 {
 		// We only process template files if go template has not been called with piped input or explicit files
 		*includePatterns = append(*includePatterns, "*.gt,*.template")
-- 
2.43.0


From 1cb92b3d7b51192770ba651c5af28f6af70b84ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:30 +0000
Subject: [PATCH 66/81] fix: an invalid expression to ignore does not stop the
 program

---
 template/razor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/template/razor.go b/template/razor.go
index 83e5b67..7a8dba8 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -28,7 +28,12 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 			ignoredExpr += `?` // Ensure that the regex is not greedy
 		}
 		ignoredExpr = t.RazorDelim() + ignoredExpr + `\b` // Stop at the end of the expression
-		content = regexp.MustCompile(ignoredExpr).ReplaceAllFunc(content, func(match []byte) []byte {
+		re, err := regexp.Compile(ignoredExpr)
+		if err != nil {
+			InternalLog.Errorf("Invalid razor expression to ignore: %v", err)
+			continue
+		}
+		content = re.ReplaceAllFunc(content, func(match []byte) []byte {
 			return []byte(strings.Replace(string(match), t.RazorDelim(), literalAt, 1))
 		})
 	}
-- 
2.43.0


From 9057afbf64e49508f74b607ff2d2f45a28dbe900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:05 +0000
Subject: [PATCH 67/81] fix: the search of errors never ends when an undefined
 variable is in an action that spans several lines

---
 template/template_error_handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index b3ea9ac..2fed73d 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -142,7 +142,10 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			}
 		} else if value != "" {
 			logMessage = fmt.Sprintf("Parsing error: %s", err)
-			lines[faultyLine] = currentLine.Replace(value, fmt.Sprintf(`"<UNDEF %s>"`, value)).Str()
+			if undefined := fmt.Sprintf(`"<UNDEF %s>"`, value); !currentLine.Contains(undefined) {
+				// If it has already been replaced, the variable is on another line and replacing it here again would never end
+				lines[faultyLine] = currentLine.Replace(value, undefined).Str()
+			}
 		} else {
 			logMessage = fmt.Sprintf("Parsing error: %s", err)
 			lines[faultyLine] = fmt.Sprintf("ERROR %s", errText)
-- 
2.43.0


From 4636e7d5c799f73765ed58a7e5a3f15f6153a469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:20 +0000
Subject: [PATCH 68/81] fix: invalid delimiters are reported as an error

---
 template/template.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/template/template.go b/template/template.go
index 6784787..e3f2c45 100644
--- a/template/template.go
+++ b/template/template.go
@@ -9,6 +9,7 @@ import (
 	"sync"
 	"text/template"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/coveooss/gotemplate/v3/collections"
 	"github.com/coveooss/gotemplate/v3/utils"
@@ -128,6 +129,9 @@ func NewTemplate(folder string, context interface{}, delimiters string, options
 	t.context = iif(context != nil, context, collections.CreateDictionary())
 	t.aliases = make(funcTableMap)
 	t.delimiters = []string{"{{", "}}", "@"}
+	if !utf8.ValidString(delimiters) {
+		return nil, fmt.Errorf("invalid delimiters %q", delimiters)
+	}
 
 	// Set the regular expression replacements
 	baseSubstitutesRegex := []string{
-- 
2.43.0


From c07acca640cc197c774f3e5c15ff577746d8f375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:41 +0000
Subject: [PATCH 69/81] fix: the search of errors never ends when the
 replacement of an error contains the delimiters

---
 template/template_error_handler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index 2fed73d..1da129b 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -161,6 +161,13 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 		if err != nil {
 			err = fmt.Errorf("%s%s%s", color.WhiteString(matches[tagLocation]), errorText, errorLine)
 		}
+		if t.Try > 100+10*len(lines) {
+			// The replacements may themselves introduce errors (i.e. if they contain the delimiters), so we stop at some point
+			if err == nil {
+				err = fmt.Errorf("%s: too many errors", color.WhiteString(t.Filename))
+			}
+			return "", true, err
+		}
 		if lines[faultyLine] != currentLine.Str() || strings.Contains(err.Error(), noValueError) {
 			// If we changed something in the current text, we try to continue the evaluation to get further errors
 			newCode := strings.Join(lines, "\n")
-- 
2.43.0


From a17fd0b05ea382c2f21c54c9f04a380a93ce7265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:28 +0000
Subject: [PATCH 70/81] fix: reporting an error could panic when the position
 of the error is not in the source

---
 template/template_error_handler.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index 1da129b..f2f79d7 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -47,7 +47,8 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 		faultyColumn := 0
 		key, message, errText, code, value := matches[tagKey], matches[tagMsg], matches[tagErr], matches[tagCode], matches[tagValue]
 
-		if matches[tagCol] != "" {
+		if matches[tagCol] != "" && matches[tagCol] != "0" {
+			// The column is 0 when the action begins by an end of line
 			faultyColumn = toInt(matches[tagCol]) - 1
 		}
 
@@ -71,7 +72,12 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			faultyColumn++
 		}
 
-		errorLine := fmt.Sprintf(" in: %s", color.HiBlackString(t.Lines[faultyLine]))
+		errorLine := currentLine.Str()
+		if faultyLine < len(t.Lines) {
+			// The code could have more lines than the source
+			errorLine = t.Lines[faultyLine]
+		}
+		errorLine = fmt.Sprintf(" in: %s", color.HiBlackString(errorLine))
 		var logMessage string
 		if key != "" {
 			// Missing key and we disabled the <no value> mode
-- 
2.43.0


From 8016a1765b6050196586a2bcda2386fafa206179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:57 +0000
Subject: [PATCH 71/81] fix: a template that includes itself without end is
 reported as an error

---
 template/extra_runtime.go | 10 ++++++++++
 template/template.go      |  1 +
 2 files changed, 11 insertions(+)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index b4c741a..47979e4 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -429,12 +429,22 @@ func (t *Template) exec(command string, args ...interface{}) (interface{}, error
 	}
 }
 
+// A template that includes itself without end must be reported as an error
+const maxIncludeDepth = 1000
+
 func (t *Template) runTemplate(source string, args ...interface{}) (result, filename string, err error) {
 	if source == "" {
 		return
 	}
 	var out bytes.Buffer
 
+	if t.depth++; t.depth > maxIncludeDepth {
+		t.depth--
+		err = fmt.Errorf("exceeded maximum include depth (%d)", maxIncludeDepth)
+		return
+	}
+	defer func() { t.depth-- }()
+
 	parentContext := t.context
 	defer func() { t.context = parentContext }()
 
diff --git a/template/template.go b/template/template.go
index e3f2c45..d1f00b6 100644
--- a/template/template.go
+++ b/template/template.go
@@ -31,6 +31,7 @@ type Template struct {
 	delimiters       []string
 	parent           *Template
 	folder           string
+	depth            int
 	children         map[string]*Template
 	aliases          funcTableMap
 	functions        funcTableMap
-- 
2.43.0


From ed8236db316971feaa2e13185bdfa8cdb5a4840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:00 +0000
Subject: [PATCH 72/81] fix: the parent of an included template is not its
 caller when the whole context is supplied as argument

---
 template/extra_runtime.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 47979e4..ce0c884 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -457,8 +457,8 @@ func (t *Template) runTemplate(source string, args ...interface{}) (result, file
 	switch len(args) {
 	case 1:
 		if arguments, err := collections.TryAsDictionary(args[0]); err == nil {
-			// The supplied arguments must not be altered
-			context = collections.CreateDictionary().Merge(arguments, context)
+			// The supplied arguments must not be altered (if they are the context of the caller, their parent is replaced)
+			context = collections.CreateDictionary().Merge(arguments).Flush("_").Merge(context)
 			break
 		}
 		fallthrough
-- 
2.43.0


From 916e7a2bfdc054ad77ff9297c22641babfb32437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:23 +0000
Subject: [PATCH 73/81] fix: the functions exit and fatal leave the temporary
 folder behind

---
 main.go                   | 2 ++
 template/extra_runtime.go | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 0a853c3..f7c7792 100644
--- a/main.go
+++ b/main.go
@@ -134,6 +134,8 @@ func runGotemplate() (exitCode int) {
 
 	// The temporary folder is created only once the arguments are known to be valid since the program exits if they are not
 	tempFolder = errors.Must(os.MkdirTemp("", "gotemplate-")).(string)
+	// The functions exit and fatal end the program without returning here
+	logrus.RegisterExitHandler(func() { os.RemoveAll(tempFolder) })
 
 	// We restore back the modified arguments
 	for i := range *templates {
diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index ce0c884..266e9fc 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -14,6 +14,7 @@ import (
 	"github.com/coveooss/gotemplate/v3/utils"
 	multicolor "github.com/coveooss/multilogger/color"
 	"github.com/fatih/color"
+	"github.com/sirupsen/logrus"
 )
 
 const (
@@ -163,7 +164,8 @@ func (t *Template) addRuntimeFuncs() {
 	})
 }
 
-func exit(exitValue int) int { os.Exit(exitValue); return exitValue }
+// exit runs the exit handlers registered by the application before leaving
+func exit(exitValue int) int { logrus.Exit(exitValue); return exitValue }
 
 func (t *Template) current() string { return t.folder }
 
-- 
2.43.0


From c661bb57f86376c24e8fd0a54aa2cc54fba96b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:25 +0000
Subject: [PATCH 74/81] fix: removeEmpty drops the dictionaries of the lists
 that cannot represent them

---
 collections/implementation/list_helper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index 0079c1a..1e34594 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -203,6 +203,9 @@ func (lh ListHelper) RemoveEmpty(list baseIList) baseIList {
 		switch item := item.(type) {
 		case baseIList:
 			isEmpty = item.Len() == 0
+		case baseIDict:
+			// The representation of a dictionary that has elements may be blank
+			isEmpty = item.Len() == 0 && fmt.Sprint(item) == ""
 		default:
 			isEmpty = item == nil || fmt.Sprint(item) == ""
 		}
-- 
2.43.0


From d4344bb383284bf40f9aea545c050a5a52281dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:53 +0000
Subject: [PATCH 75/81] fix: converting a structure panics if one of its fields
 is a nil pointer or interface

---
 collections/convert_data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/convert_data.go b/collections/convert_data.go
index c11aad7..99cc7fd 100644
--- a/collections/convert_data.go
+++ b/collections/convert_data.go
@@ -257,9 +257,9 @@ func MarshalGo(value interface{}) (result interface{}, err error) {
 					continue
 				}
 				if key >= 0 {
-					m[val.Field(key).String()] = map[string]interface{}{tag.name: v.Interface()}
+					m[val.Field(key).String()] = map[string]interface{}{tag.name: value}
 				} else {
-					m[tag.name] = v.Interface()
+					m[tag.name] = value
 				}
 			}
 		}
-- 
2.43.0


From ae6a1dd3506533a871da51e6c98fa5dcb1185c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:58 +0000
Subject: [PATCH 76/81] fix: only the last field of a structure that has a key
 is converted

---
 collections/convert_data.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/collections/convert_data.go b/collections/convert_data.go
index 99cc7fd..f5dca0c 100644
--- a/collections/convert_data.go
+++ b/collections/convert_data.go
@@ -205,12 +205,21 @@ func MarshalGo(value interface{}) (result interface{}, err error) {
 
 	case reflect.Struct:
 		m := make(map[string]interface{}, typ.NumField())
+		result = m
 
 		info, key, err := getTags(typ)
 		if err != nil {
 			return nil, err
 		}
+		if key >= 0 {
+			// The fields are stored under the value of the key
+			m = make(map[string]interface{}, typ.NumField()-1)
+			result = map[string]interface{}{fmt.Sprint(val.Field(key)): m}
+		}
 		for i := 0; i < typ.NumField(); i++ {
+			if i == key {
+				continue
+			}
 			sf := typ.Field(i)
 			if sf.Anonymous {
 				t := sf.Type
@@ -256,14 +265,9 @@ func MarshalGo(value interface{}) (result interface{}, err error) {
 				if IsEmptyValue(v) && (v.Kind() == reflect.Struct || v.Kind() == reflect.Map) && tag.options["omitempty"] {
 					continue
 				}
-				if key >= 0 {
-					m[val.Field(key).String()] = map[string]interface{}{tag.name: value}
-				} else {
-					m[tag.name] = value
-				}
+				m[tag.name] = value
 			}
 		}
-		result = m
 	default:
 		fmt.Fprintf(os.Stderr, "Unknown type %T %v : %v\n", value, typ.Kind(), value)
 		result = fmt.Sprint(value)
-- 
2.43.0


From 26afc2d9bade7d85479df841524eacd02941bf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:02 +0000
Subject: [PATCH 77/81] fix: adding a nil pointer to a list or to a dictionary
 panics

---
 collections/implementation/base_helper.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/collections/implementation/base_helper.go b/collections/implementation/base_helper.go
index 4058abc..f336eca 100644
--- a/collections/implementation/base_helper.go
+++ b/collections/implementation/base_helper.go
@@ -106,8 +106,8 @@ func (bh BaseHelper) TryAsDictionaryStrict(object interface{}) (baseIDict, error
 }
 
 func (bh BaseHelper) tryAsDictionary(object interface{}, strict bool) (baseIDict, error) {
-	if object != nil && reflect.TypeOf(object).Kind() == reflect.Ptr {
-		object = reflect.ValueOf(object).Elem().Interface()
+	if value := reflect.ValueOf(object); value.Kind() == reflect.Ptr && !value.IsNil() {
+		object = value.Elem().Interface()
 	}
 
 	var result baseIDict
@@ -165,8 +165,8 @@ func (bh BaseHelper) tryAsDictionary(object interface{}, strict bool) (baseIDict
 // - baseIList: The converted list.
 // - error: An error if the object cannot be converted to a baseIList.
 func (bh BaseHelper) TryAsList(object interface{}) (baseIList, error) {
-	if object != nil && reflect.TypeOf(object).Kind() == reflect.Ptr {
-		object = reflect.ValueOf(object).Elem().Interface()
+	if value := reflect.ValueOf(object); value.Kind() == reflect.Ptr && !value.IsNil() {
+		object = value.Elem().Interface()
 	}
 
 	var result baseIList
-- 
2.43.0


From e127ad839dc3ba1259eae063c4728ba26f6cbe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:06 +0000
Subject: [PATCH 78/81] fix: the function func modifies the configuration it
 receives

---
 template/extra_runtime.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 266e9fc..942de78 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -258,7 +258,10 @@ func (t *Template) addAlias(name, function string, source interface{}, local, co
 		return "", fmt.Errorf("too many parameters supplied")
 	}
 
-	for key, val := range config.AsMap() {
+	// The supplied configuration must not be altered
+	supplied := config
+	config = config.Clone()
+	for key, val := range supplied.AsMap() {
 		switch strings.ToLower(key) {
 		case "d", "desc", "description":
 			config.Set("description", val)
-- 
2.43.0


From 9f4aac0ae9570e1b658a41ca36d9161f02e412a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:55 +0000
Subject: [PATCH 79/81] fix: invalid arguments are not reported by the exit
 code

---
 main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index f7c7792..4eb2609 100644
--- a/main.go
+++ b/main.go
@@ -128,7 +128,8 @@ func runGotemplate() (exitCode int) {
 		// must be specified after the templates. So, we just give it another try by injecting the default command.
 		if command, err = kingpin.CommandLine.Parse(append([]string{"run"}, os.Args[1:]...)); err != nil {
 			kingpin.Usage()
-			os.Exit(0)
+			errors.Print(err)
+			os.Exit(1)
 		}
 	}
 
-- 
2.43.0


From c5586458c8e9fe7466c4121c821ef69fe03f97a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:45 +0000
Subject: [PATCH 80/81] fix: the index that follows a context variable in razor
 is rendered as text

---
 template/razor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/template/razor.go b/template/razor.go
index 7a8dba8..a255fce 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -126,6 +126,7 @@ var expressions = [][]interface{}{
 	// Variables
 	{"Local variables - @{var}", `@reduce;{[sp](?P<name>[\p{L}\d_\.]*)[sp]}(?P<end>endexpr;)`, `@${reduce}($$${name});`},
 	{"Global variables followed by expression", `@reduce;(?P<expr>[idSel]selector;index;?)(?P<end>endexpr;)`, `@${reduce}(${expr});`, replacementFunc(expressionParserSkipError)},
+	{"Context variables with slice - @.var[...]", `@reduce;\.(?P<name>[idSel])index;endexpr;`, `{{${reduce1} ${slicer} .${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Context variables - @.var", `@reduce;\.(?P<name>[idSel])endexpr;`, `@${reduce}(.${name});`},
 	{"Global variables with slice - @var[...]", `@reduce;(?P<name>[idSel])index;endexpr;`, `{{${reduce1} ${slicer} $$.${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Context variables special with slice", `@reduce;\.(?P<expr>(?P<name>[flexible_id])index;)endexpr;`, `{{${reduce1} ${slicer} (get . "${name}") ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
-- 
2.43.0


From 702ce370d561adeebedc88d18c114d113e723a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:16 +0000
Subject: [PATCH 81/81] fix: the values of the flags beginning with @ are
 altered

---
 main.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/main.go b/main.go
index 4eb2609..4ab046d 100644
--- a/main.go
+++ b/main.go
@@ -101,11 +101,9 @@ func runGotemplate() (exitCode int) {
 	)
 
 	loadAllAddins := true
+	// By default, kingpin interprets the arguments (and the values of the flags) beginning with @ as file
+	kingpin.EnableFileExpansion = false
 	for i := range os.Args {
-		// There is a problem with kingpin, it tries to interpret arguments beginning with @ as file
-		if strings.HasPrefix(os.Args[i], "@") {
-			os.Args[i] = "#!!" + os.Args[i]
-		}
 		if os.Args[i] == "--base" {
 			loadAllAddins = false
 		}
@@ -138,11 +136,6 @@ func runGotemplate() (exitCode int) {
 	// The functions exit and fatal end the program without returning here
 	logrus.RegisterExitHandler(func() { os.RemoveAll(tempFolder) })
 
-	// We restore back the modified arguments
-	for i := range *templates {
-		(*templates)[i] = strings.TrimPrefix((*templates)[i], "#!!")
-	}
-
 	// Build the optionsSet
 	var optionsSet template.OptionsSet
 	if *optionsOff {
-- 
2.43.0

