From 2e4a37bdabb31f1c15ca724f0bb7d2a0e6016cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 01/19] fix: check and lint report a missing file instead of
 crashing on a nil FileInfo

---
 internal/app/check/check.go | 1 +
 internal/app/lint/lint.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 507c040..8225fbd 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -24,6 +24,7 @@ func (f Check) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 37f83f8..744fa5c 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -31,6 +31,7 @@ func (l Lint) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
-- 
2.43.0


From 7d17267cbc41870bbb040c492072286db9ed005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 02/19] fix: print the own comment of each plugin section
 instead of the first section's

---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 30ac8cb..9d35511 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -147,7 +147,7 @@ func pluginSectionString(pluginType string, ps []PluginSection) string {
 	var s bytes.Buffer
 	for i, p := range ps {
 		if len(ps) > 0 {
-			s.WriteString(ps[0].CommentBlock.String())
+			s.WriteString(p.CommentBlock.String())
 		}
 		s.WriteString(fmt.Sprint(pluginType + " {"))
 		s.WriteString(prefix(p.String(), false))
-- 
2.43.0


From 96603e82e9557a4d0889d25bf3f0b478bdf8c60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 03/19] fix: keep lines with quotes or newlines in regexps and
 field selectors intact when indenting

---
 ast/ast_helper.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ast/ast_helper.go b/ast/ast_helper.go
index 20f165f..066d153 100644
--- a/ast/ast_helper.go
+++ b/ast/ast_helper.go
@@ -12,7 +12,10 @@ import (
 // * line of comment
 // * line without any quotes
 // * line(s) with quoted strings, which are kept together to form a single "line of configuration"
-var linesRe = regexp.MustCompile(`(\n|\s*#[^\n]*\n|[^'"\n]*\n|([^"'\n]*("(\\"|[^"])*"|'(\\'|[^'])*')[^"'\n]*)*\n)`)
+// Regular expressions and field selectors may contain quotes and newlines as well and are therefore
+// treated the same way as quoted strings (an array is always followed by a newline or its closing
+// bracket and therefore never mistaken for a field selector).
+var linesRe = regexp.MustCompile(`(\n|\s*#[^\n]*\n|[^'"/[\n]*\n|([^"'/[\n]*("(\\"|[^"])*"|'(\\'|[^'])*'|/(\\/|[^/])*/|\[[^][,\n][^][,]*\]|\[)[^"'/[\n]*)*\n)`)
 
 func prefix(in string, emptyNewline bool) string {
 	if len(in) == 0 {
-- 
2.43.0


From 1b02ae12669c426b1c308d40321e956dee79ba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 04/19] fix: print numbers with exponent with full precision

---
 ast/ast.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 9d35511..df9063e 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 )
 
@@ -483,7 +484,11 @@ func (na NumberAttribute) ValueString() string {
 		if float64(int64(na.Value())+0) == na.Value() {
 			return fmt.Sprintf("%d", int64(na.Value()))
 		}
-		return strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
+		value = strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
+		if f, err := strconv.ParseFloat(value, 64); err != nil || f != na.Value() {
+			// More than 10 digits are needed to represent the value.
+			return strconv.FormatFloat(na.Value(), 'f', -1, 64)
+		}
 	}
 	return value
 }
-- 
2.43.0


From 222a43d448415ed8222cbd0fd0a8f8a802513715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 05/19] fix: report a plugin as first array element instead of
 dropping it silently

---
 logstash_config_helper.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index c60e9f1..8ba5b14 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -201,7 +201,10 @@ func (c *current) plugin(name1, attributes1, comment1, footerComment1 interface{
 }
 
 func (c *current) attributes(attribute1, attributes1, comment1 interface{}) ([]ast.Attribute, error) {
-	attribute, _ := c.attributeComment(attribute1, comment1, false)
+	attribute, err := c.attributeComment(attribute1, comment1, false)
+	if err != nil {
+		return nil, err
+	}
 	iattributes := toIfaceSlice(attribute)
 	iattributes = append(iattributes, toIfaceSlice(attributes1)...)
 
-- 
2.43.0


From 70320e77f0acd1e2a6d9a700b940369d5dc3235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 06/19] fix: record the position of numbers, arrays and hashes
 used as values

---
 logstash_config_helper.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 8ba5b14..2b6ad5f 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -310,7 +310,9 @@ func (c *current) number() (ast.NumberAttribute, error) {
 		// TODO: is this possible to happen? are all values, which are valid floats in Logstash/Ruby also valid floats in Go?
 		return ast.NumberAttribute{}, err
 	}
-	return ast.NewNumberAttribute("", f), nil
+	n := ast.NewNumberAttribute("", f)
+	n.Start = c.astPos()
+	return n, nil
 }
 
 func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttribute, error) {
@@ -320,6 +322,7 @@ func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttri
 	}
 
 	a := ast.NewArrayAttribute("", attributes...)
+	a.Start = c.astPos()
 
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
@@ -333,6 +336,7 @@ func (c *current) hash(attributes1, footerComment1 interface{}) (ast.HashAttribu
 	}
 
 	a := ast.NewHashAttribute("", hashentries...)
+	a.Start = c.astPos()
 
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
-- 
2.43.0


From 295fc34cdcdfff788ac18ebe955648518c97ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 07/19] fix: keep the blank line after the comment of second
 and later plugin sections

---
 logstash_config_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 2b6ad5f..44a5098 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -74,7 +74,7 @@ func (c *current) configSection(ps1, psComment1 interface{}) (ast.PluginSection,
 		return ast.PluginSection{}, fmt.Errorf("Value is not a PluginSection: %#v", ps1)
 	}
 
-	psComments := c.commentBlock(psComment1, false, false)
+	psComments := c.commentBlock(psComment1, false, true)
 
 	ps.CommentBlock = psComments
 
-- 
2.43.0


From e1cd5ec292f3a80393f09995b79bbbdeb72b4aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 08/19] fix: do not treat blank lines before the first comment
 line as space between comments

---
 logstash_config_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 44a5098..3d19f70 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -150,7 +150,7 @@ func (c *current) comment() ([]ast.Comment, error) {
 	for i, line := range lines {
 		idx := strings.Index(line, "#")
 		if idx == -1 {
-			if i > 0 {
+			if i > 0 && len(commentLines) > 0 {
 				space = true
 			}
 			continue
-- 
2.43.0


From 5f6d304dacfc413799a3706af36bfe157c3b6735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 09/19] fix: detect and escape quotes at the start of a value
 and refuse values that escape the closing quote

---
 ast/astutil/quote.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ast/astutil/quote.go b/ast/astutil/quote.go
index 206482d..57da47d 100644
--- a/ast/astutil/quote.go
+++ b/ast/astutil/quote.go
@@ -19,7 +19,7 @@ func Quote(value string, quoteType ast.StringAttributeType) (string, error) {
 		var hasQuote bool
 		quote := quoteType.String()[0]
 		for i := 0; i < len(value); i++ {
-			if value[i] == quote && i > 1 && value[i-1] != '\\' {
+			if value[i] == quote && (i == 0 || value[i-1] != '\\') {
 				hasQuote = true
 				break
 			}
@@ -28,6 +28,9 @@ func Quote(value string, quoteType ast.StringAttributeType) (string, error) {
 		if hasQuote {
 			return "", errors.New("value %q contains unescaped quotes and can not be quoted without escaping")
 		}
+		if len(value) > 0 && value[len(value)-1] == '\\' {
+			return "", errors.New("value ends with a backslash and can not be quoted, because the closing quote would be escaped")
+		}
 		return quoteType.String() + value + quoteType.String(), nil
 
 	case ast.Bareword:
@@ -67,7 +70,7 @@ func escapeQuotes(value string, quote byte) string {
 	b := []byte(value)
 
 	for i := 0; i < len(b); i++ {
-		if b[i] == quote && (i == 0 || i > 1 && b[i-1] != '\\') {
+		if b[i] == quote && (i == 0 || b[i-1] != '\\') {
 			b = append(b[:i], append([]byte{'\\'}, b[i:]...)...)
 		}
 	}
-- 
2.43.0


From 27eb4da43a498a386cff6a8a42f97de915b053c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 10/19] fix: keep the cursor on the current plugin after
 InsertBefore

---
 ast/astutil/apply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/astutil/apply.go b/ast/astutil/apply.go
index 24c9e57..479ed9a 100644
--- a/ast/astutil/apply.go
+++ b/ast/astutil/apply.go
@@ -123,7 +123,7 @@ func (c *Cursor) InsertBefore(p ast.BranchOrPlugin) {
 		panic("InsertBefore plugin not contained in slice")
 	}
 	c.parent = append(c.parent[:i], append([]ast.BranchOrPlugin{p}, c.parent[i:]...)...)
-	c.iter.step++
+	c.iter.index++
 }
 
 // InsertAfter inserts p after the current Plugin in its containing slice.
-- 
2.43.0


From f7008a8d148d4ef92c770139bd1a8f58a3fa0d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 11/19] fix: guard the shared farthest failure list, concurrent
 parsers raced on it

---
 logstash_config_helper.go |  3 +++
 parse_error_helper.go     | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 3d19f70..7b7fc57 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -28,6 +28,9 @@ func (c *current) initState() error {
 }
 
 func (c *current) initParser() (bool, error) {
+	farthestFailureMu.Lock()
+	defer farthestFailureMu.Unlock()
+
 	farthestFailure = []errPos{}
 	return true, nil
 }
diff --git a/parse_error_helper.go b/parse_error_helper.go
index ac32c01..4b4fc81 100644
--- a/parse_error_helper.go
+++ b/parse_error_helper.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"sync"
 )
 
 type errPos struct {
@@ -12,11 +13,18 @@ type errPos struct {
 	pos int
 }
 
-var farthestFailure []errPos
+var (
+	// farthestFailureMu guards farthestFailure, which is shared by all parsers.
+	farthestFailureMu sync.Mutex
+	farthestFailure   []errPos
+)
 
 // GetFarthestFailure returns the farthest position where the parser had a parse error.
 // The farthest position is normally close to the real source for the error.
 func GetFarthestFailure() (string, bool) {
+	farthestFailureMu.Lock()
+	defer farthestFailureMu.Unlock()
+
 	if len(farthestFailure) > 0 {
 		var bb bytes.Buffer
 		bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", farthestFailure[0].c.pos, farthestFailure[0].pos, showNewline(string(farthestFailure[0].c.text))))
@@ -43,6 +51,9 @@ func pos(c *current) int {
 // the parsing fails.
 // The assumption is, that the longest successful parse tree is the most acurate.
 func (c *current) pushError(errorMsg string) (bool, error) {
+	farthestFailureMu.Lock()
+	defer farthestFailureMu.Unlock()
+
 	pos := pos(c)
 	if len(farthestFailure) == 0 || pos > farthestFailure[0].pos {
 		farthestFailure = []errPos{{msg: errorMsg, c: *c, pos: pos}}
@@ -63,6 +74,9 @@ func (c *current) pushError(errorMsg string) (bool, error) {
 // In most cases this is a missing closing character of a pair, which was opened before.
 // Example: a missing closing square bracket or a missing closing double quote.
 func (c *current) fatalError(errorMsg string) (bool, error) {
+	farthestFailureMu.Lock()
+	defer farthestFailureMu.Unlock()
+
 	farthestFailure = []errPos{
 		{
 			msg: errorMsg,
-- 
2.43.0


From 041b106a51f9f2365117fab4ecd9f4d5926f1e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 12/19] fix: do not attribute the farthest failure of an other
 file to an unreadable file

---
 internal/app/check/check.go   | 6 ++++++
 internal/app/format/format.go | 5 +++++
 internal/app/lint/lint.go     | 6 ++++++
 3 files changed, 17 insertions(+)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 8225fbd..bea145e 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -31,6 +31,12 @@ func (f Check) Run(args []string) error {
 		}
 
 		_, err = config.ParseFile(filename, config.IgnoreComments(true))
+		var pathErr *os.PathError
+		if errors.As(err, &pathErr) {
+			// Not a parse error, the farthest failure belongs to an other file.
+			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
+		}
 		if err != nil {
 			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
 				if !strings.Contains(err.Error(), errMsg) {
diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index 33ef8f0..8e77e3f 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -35,6 +35,11 @@ func (f Format) Run(args []string) error {
 		}
 
 		c, err := config.ParseFile(filename)
+		var pathErr *os.PathError
+		if errors.As(err, &pathErr) {
+			// Not a parse error, the farthest failure belongs to an other file.
+			return errors.Errorf("%s: %v", filename, err)
+		}
 		if err != nil {
 			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
 				if !strings.Contains(err.Error(), errMsg) {
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 744fa5c..896495a 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -38,6 +38,12 @@ func (l Lint) Run(args []string) error {
 		}
 
 		c, err := config.ParseFile(filename, config.ExceptionalCommentsWarning(true))
+		var pathErr *os.PathError
+		if errors.As(err, &pathErr) {
+			// Not a parse error, the farthest failure belongs to an other file.
+			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
+		}
 		if err != nil {
 			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
 				if !strings.Contains(err.Error(), errMsg) {
-- 
2.43.0


From 8160939d2c008a0f851c0ee705a9d10ca10f2aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 13/19] fix: do not add a second id to plugins with an id of an
 other type than string

---
 internal/app/lint/lint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 896495a..3334eef 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -130,7 +130,7 @@ func (v *validator) walk(c *astutil.Cursor) {
 
 	id, err := c.Plugin().ID()
 	if err != nil {
-		if v.autoFixID {
+		if v.autoFixID && ast.IsNotFoundError(err) {
 			v.changed = true
 
 			plugin := c.Plugin()
-- 
2.43.0


From 840ea4a0e0682775673c137d63e87410ab4889ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 14/19] fix: generate a valid id for plugins with a quoted name

---
 internal/app/lint/lint.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 3334eef..947abf4 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -134,7 +134,7 @@ func (v *validator) walk(c *astutil.Cursor) {
 			v.changed = true
 
 			plugin := c.Plugin()
-			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", fmt.Sprintf("%s-%d", c.Plugin().Name(), v.count), ast.DoubleQuoted))
+			plugin.Attributes = append(plugin.Attributes, v.newID(c.Plugin().Name()))
 
 			c.Replace(plugin)
 		} else {
@@ -150,3 +150,15 @@ func (v *validator) walk(c *astutil.Cursor) {
 
 	v.allIDs[id] = struct{}{}
 }
+
+func (v *validator) newID(name string) ast.Attribute {
+	quoteType := ast.StringAttributeType(ast.DoubleQuoted)
+	if strings.HasPrefix(name, `"`) || strings.HasPrefix(name, `'`) {
+		// The name of the plugin is quoted, reuse its quotes for the ID.
+		if strings.HasPrefix(name, `'`) {
+			quoteType = ast.SingleQuoted
+		}
+		name = name[1 : len(name)-1]
+	}
+	return ast.NewStringAttribute("id", fmt.Sprintf("%s-%d", name, v.count), quoteType)
+}
-- 
2.43.0


From 46538bd6f0efd755d8651a99bbd13246e1fe8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 15/19] fix: do not generate an id which is already used in the
 file

---
 internal/app/lint/lint.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 947abf4..a2b5e52 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -61,8 +61,14 @@ func (l Lint) Run(args []string) error {
 		v := validator{
 			autoFixID: l.autoFixID,
 			allIDs:    map[string]struct{}{},
+			usedIDs:   map[string]struct{}{},
 		}
 
+		for _, sections := range [][]ast.PluginSection{conf.Input, conf.Filter, conf.Output} {
+			for i := range sections {
+				astutil.ApplyPlugins(sections[i].BranchOrPlugins, v.collectID)
+			}
+		}
 		for i := range conf.Input {
 			astutil.ApplyPlugins(conf.Input[i].BranchOrPlugins, v.walk)
 		}
@@ -123,6 +129,14 @@ type validator struct {
 	changed      bool
 	duplicateIDs []string
 	allIDs       map[string]struct{}
+	usedIDs      map[string]struct{}
+}
+
+// collectID collects the IDs present in the file, these can not be used as new IDs.
+func (v *validator) collectID(c *astutil.Cursor) {
+	if id, err := c.Plugin().ID(); err == nil {
+		v.usedIDs[id] = struct{}{}
+	}
 }
 
 func (v *validator) walk(c *astutil.Cursor) {
@@ -160,5 +174,13 @@ func (v *validator) newID(name string) ast.Attribute {
 		}
 		name = name[1 : len(name)-1]
 	}
-	return ast.NewStringAttribute("id", fmt.Sprintf("%s-%d", name, v.count), quoteType)
+	id := fmt.Sprintf("%s-%d", name, v.count)
+	for n := v.count + 1; ; n++ {
+		if _, ok := v.usedIDs[id]; !ok {
+			break
+		}
+		id = fmt.Sprintf("%s-%d", name, n)
+	}
+	v.usedIDs[id] = struct{}{}
+	return ast.NewStringAttribute("id", id, quoteType)
 }
-- 
2.43.0


From 74659cc23b9e702fd5af5511dfbd1874ba76ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 16/19] fix: recognise the id attribute if its name is quoted

---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index df9063e..b565151 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -303,7 +303,7 @@ func (p Plugin) String() string {
 // the NotFounder interface.
 func (p Plugin) ID() (string, error) {
 	for _, attr := range p.Attributes {
-		if attr != nil && attr.Name() == "id" {
+		if attr != nil && (attr.Name() == "id" || attr.Name() == `"id"` || attr.Name() == `'id'`) {
 			switch stringAttr := attr.(type) {
 			case StringAttribute:
 				return stringAttr.value, nil
-- 
2.43.0


From de98b5faa867179432ad72de316edc72b88b42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 17/19] fix: report failures to write or close the formatted
 output

---
 internal/app/format/format.go | 7 ++++++-
 internal/app/lint/lint.go     | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index 8e77e3f..bf6166f 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -62,6 +62,9 @@ func (f Format) Run(args []string) error {
 				if err != nil {
 					return errors.Wrap(err, "failed to write file with automatically fixed ID")
 				}
+				if err := f.Close(); err != nil {
+					return errors.Wrap(err, "failed to write file with automatically fixed ID")
+				}
 
 				return nil
 			}()
@@ -71,7 +74,9 @@ func (f Format) Run(args []string) error {
 			continue
 		}
 
-		fmt.Fprint(f.out, c)
+		if _, err := fmt.Fprint(f.out, c); err != nil {
+			return errors.Wrapf(err, "%s: failed to write formatted output", filename)
+		}
 	}
 
 	return nil
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index a2b5e52..706d6af 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -110,6 +110,10 @@ func (l Lint) Run(args []string) error {
 					result = multierror.Append(result, errors.Wrap(err, "failed to write file with automatically fixed ID"))
 					return
 				}
+				if err := f.Close(); err != nil {
+					result = multierror.Append(result, errors.Wrap(err, "failed to write file with automatically fixed ID"))
+					return
+				}
 			}()
 		}
 	}
-- 
2.43.0


From 7e9b106ead151d2a94a271592266127db78db7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 18/19] fix: traverse plugins that were replaced by a pointer
 to a plugin

---
 ast/astutil/apply.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ast/astutil/apply.go b/ast/astutil/apply.go
index 479ed9a..24ce317 100644
--- a/ast/astutil/apply.go
+++ b/ast/astutil/apply.go
@@ -44,6 +44,10 @@ func ApplyPlugins(root []ast.BranchOrPlugin, applyPluginsFunc ApplyPluginsFunc)
 		case ast.Plugin:
 			applyPluginsFunc(&c)
 
+		case *ast.Plugin:
+			// E.g. the result of Cursor.Plugin used with Cursor.Replace in an earlier traversal.
+			applyPluginsFunc(&c)
+
 		case nil:
 			applyPluginsFunc(&c)
 
@@ -75,6 +79,10 @@ type Cursor struct {
 
 // Plugin returns the current Plugin.
 func (c *Cursor) Plugin() *ast.Plugin {
+	if p, ok := c.parent[c.iter.index].(*ast.Plugin); ok {
+		return p
+	}
+
 	p, ok := c.parent[c.iter.index].(ast.Plugin)
 	if !ok {
 		var p *ast.Plugin
-- 
2.43.0


From 50fe72d24a0f4e38b483f00d85ba0daa1447da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:11 +0000
Subject: [PATCH 19/19] fix: do not write to the AST in a traversal without
 modifications

---
 ast/astutil/apply.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ast/astutil/apply.go b/ast/astutil/apply.go
index 24ce317..b018c30 100644
--- a/ast/astutil/apply.go
+++ b/ast/astutil/apply.go
@@ -31,15 +31,24 @@ func ApplyPlugins(root []ast.BranchOrPlugin, applyPluginsFunc ApplyPluginsFunc)
 
 		switch block := c.parent[c.iter.index].(type) {
 		case ast.Branch:
-			block.IfBlock.Block = ApplyPlugins(block.IfBlock.Block, applyPluginsFunc)
+			// Only write to the AST if something changed, such that a traversal without
+			// modifications may run concurrently with other readers of the AST.
+			ifBlock := ApplyPlugins(block.IfBlock.Block, applyPluginsFunc)
 
 			for i := range block.ElseIfBlock {
-				block.ElseIfBlock[i].Block = ApplyPlugins(block.ElseIfBlock[i].Block, applyPluginsFunc)
+				elseIfBlock := ApplyPlugins(block.ElseIfBlock[i].Block, applyPluginsFunc)
+				if !sameSlice(elseIfBlock, block.ElseIfBlock[i].Block) {
+					block.ElseIfBlock[i].Block = elseIfBlock
+				}
 			}
 
-			block.ElseBlock.Block = ApplyPlugins(block.ElseBlock.Block, applyPluginsFunc)
+			elseBlock := ApplyPlugins(block.ElseBlock.Block, applyPluginsFunc)
 
-			c.parent[c.iter.index] = block
+			if !sameSlice(ifBlock, block.IfBlock.Block) || !sameSlice(elseBlock, block.ElseBlock.Block) {
+				block.IfBlock.Block = ifBlock
+				block.ElseBlock.Block = elseBlock
+				c.parent[c.iter.index] = block
+			}
 
 		case ast.Plugin:
 			applyPluginsFunc(&c)
@@ -61,6 +70,11 @@ func ApplyPlugins(root []ast.BranchOrPlugin, applyPluginsFunc ApplyPluginsFunc)
 	return c.parent
 }
 
+// sameSlice returns true, if a and b are the same slice of the same array.
+func sameSlice(a, b []ast.BranchOrPlugin) bool {
+	return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
+}
+
 // An iterator controls iteration over a slice of nodes.
 type iterator struct {
 	index, step int
-- 
2.43.0

