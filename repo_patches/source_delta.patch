From 014a12eceeee35a86e06244142e9f71838fac229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 01/64] fix: do not panic writing a comment that contains an
 empty line

---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index f8b2240..7d06552 100644
--- a/file.go
+++ b/file.go
@@ -349,7 +349,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			// Support multiline comments
 			lines := strings.Split(sec.Comment, LineBreak)
 			for i := range lines {
-				if lines[i][0] != '#' && lines[i][0] != ';' {
+				if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 					lines[i] = "; " + lines[i]
 				} else {
 					lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
@@ -419,7 +419,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				// Support multiline comments
 				lines := strings.Split(key.Comment, LineBreak)
 				for i := range lines {
-					if lines[i][0] != '#' && lines[i][0] != ';' {
+					if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 						lines[i] = "; " + strings.TrimSpace(lines[i])
 					} else {
 						lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
-- 
2.43.0


From 5c072751f0b6bf62efe2ffea53c7a7eeda0329bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 02/64] fix: delete keys case-insensitively in insensitive mode

---
 section.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/section.go b/section.go
index a3615d8..3b64322 100644
--- a/section.go
+++ b/section.go
@@ -230,6 +230,9 @@ func (s *Section) DeleteKey(name string) {
 		s.f.lock.Lock()
 		defer s.f.lock.Unlock()
 	}
+	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
+		name = strings.ToLower(name)
+	}
 
 	for i, k := range s.keyList {
 		if k == name {
-- 
2.43.0


From 5a044b099cbba2d51017e03727aa81cd8df73e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 03/64] fix: an explicit [DEFAULT] header is the default
 section in insensitive mode

---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 7d06552..a6e8dfe 100644
--- a/file.go
+++ b/file.go
@@ -85,7 +85,7 @@ func (f *File) NewSection(name string) (*Section, error) {
 		return nil, errors.New("empty section name")
 	}
 
-	if (f.options.Insensitive || f.options.InsensitiveSections) && name != DefaultSection {
+	if f.options.Insensitive || f.options.InsensitiveSections {
 		name = strings.ToLower(name)
 	}
 
-- 
2.43.0


From 0599a89d9eb3d68dba7e2158c94d43d4516afa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 04/64] fix: list every non-unique child section once, in file
 order

---
 section.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/section.go b/section.go
index 3b64322..25e999f 100644
--- a/section.go
+++ b/section.go
@@ -250,9 +250,9 @@ func (s *Section) DeleteKey(name string) {
 func (s *Section) ChildSections() []*Section {
 	prefix := s.name + s.f.options.ChildSectionDelimiter
 	children := make([]*Section, 0, 3)
-	for _, name := range s.f.sectionList {
+	for i, name := range s.f.sectionList {
 		if strings.HasPrefix(name, prefix) {
-			children = append(children, s.f.sections[name]...)
+			children = append(children, s.f.sections[name][s.f.sectionIndexes[i]])
 		}
 	}
 	return children
-- 
2.43.0


From 5dc4e89a53f20e296c263f3e780f6e1cef58f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 05/64] fix: SectionsByName returns a list that later deletions
 do not change, SectionWithIndex("", n) a default section

---
 file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index a6e8dfe..97ff89f 100644
--- a/file.go
+++ b/file.go
@@ -167,7 +167,8 @@ func (f *File) SectionsByName(name string) ([]*Section, error) {
 		return nil, fmt.Errorf("section %q does not exist", name)
 	}
 
-	return secs, nil
+	// Hand out a copy, the underlying list changes when sections are deleted.
+	return append([]*Section(nil), secs...), nil
 }
 
 // Section assumes named section exists and returns a zero-value when not.
@@ -187,6 +188,9 @@ func (f *File) Section(name string) *Section {
 func (f *File) SectionWithIndex(name string, index int) *Section {
 	secs, err := f.SectionsByName(name)
 	if err != nil || len(secs) <= index {
+		if name == "" {
+			name = DefaultSection
+		}
 		// NOTE: It's OK here because the only possible error is empty section name,
 		// but if it's empty, this piece of code won't be executed.
 		newSec, _ := f.NewSection(name)
-- 
2.43.0


From 2dd5a004262ecdad468d3df47086a3adfbb72171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 06/64] fix: KeysHash reports the current keys and values of
 the section

---
 key.go     |  1 -
 section.go | 29 ++++++++++++-----------------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/key.go b/key.go
index a19d9f3..a1cc7de 100644
--- a/key.go
+++ b/key.go
@@ -833,5 +833,4 @@ func (k *Key) SetValue(v string) {
 	}
 
 	k.value = v
-	k.s.keysHash[k.name] = v
 }
diff --git a/section.go b/section.go
index 25e999f..adb82ed 100644
--- a/section.go
+++ b/section.go
@@ -22,12 +22,11 @@ import (
 
 // Section represents a config section.
 type Section struct {
-	f        *File
-	Comment  string
-	name     string
-	keys     map[string]*Key
-	keyList  []string
-	keysHash map[string]string
+	f       *File
+	Comment string
+	name    string
+	keys    map[string]*Key
+	keyList []string
 
 	isRawSection bool
 	rawBody      string
@@ -35,11 +34,10 @@ type Section struct {
 
 func newSection(f *File, name string) *Section {
 	return &Section{
-		f:        f,
-		name:     name,
-		keys:     make(map[string]*Key),
-		keyList:  make([]string, 0, 10),
-		keysHash: make(map[string]string),
+		f:       f,
+		name:    name,
+		keys:    make(map[string]*Key),
+		keyList: make([]string, 0, 10),
 	}
 }
 
@@ -82,14 +80,12 @@ func (s *Section) NewKey(name, val string) (*Key, error) {
 			}
 		} else {
 			s.keys[name].value = val
-			s.keysHash[name] = val
 		}
 		return s.keys[name], nil
 	}
 
 	s.keyList = append(s.keyList, name)
 	s.keys[name] = newKey(s, name, val)
-	s.keysHash[name] = val
 	return s.keys[name], nil
 }
 
@@ -217,9 +213,9 @@ func (s *Section) KeysHash() map[string]string {
 		defer s.f.lock.RUnlock()
 	}
 
-	hash := make(map[string]string, len(s.keysHash))
-	for key, value := range s.keysHash {
-		hash[key] = value
+	hash := make(map[string]string, len(s.keys))
+	for name, key := range s.keys {
+		hash[name] = key.value
 	}
 	return hash
 }
@@ -238,7 +234,6 @@ func (s *Section) DeleteKey(name string) {
 		if k == name {
 			s.keyList = append(s.keyList[:i], s.keyList[i+1:]...)
 			delete(s.keys, name)
-			delete(s.keysHash, name)
 			return
 		}
 	}
-- 
2.43.0


From 9f7b7391b5e58314b70209f17662730bec4cd8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 07/64] fix: Strings handles multibyte delimiters and keeps a
 trailing backslash

---
 key.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index a1cc7de..d28e38f 100644
--- a/key.go
+++ b/key.go
@@ -21,6 +21,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 // Key represents a key under a section.
@@ -511,7 +512,7 @@ func (k *Key) Strings(delim string) []string {
 			if runes[idx] == '\\' {
 				escape = true
 			} else if strings.HasPrefix(string(runes[idx:]), delim) {
-				idx += len(delim) - 1
+				idx += utf8.RuneCountInString(delim) - 1
 				vals = append(vals, strings.TrimSpace(buf.String()))
 				buf.Reset()
 			} else {
@@ -524,6 +525,10 @@ func (k *Key) Strings(delim string) []string {
 		}
 	}
 
+	if escape {
+		// Nothing follows the backslash, it does not escape anything.
+		buf.WriteRune('\\')
+	}
 	if buf.Len() > 0 {
 		vals = append(vals, strings.TrimSpace(buf.String()))
 	}
-- 
2.43.0


From 630231895adced71a4e652e47d3817ab583ad252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 08/64] fix: InTime compares instants, not time.Time
 representations

---
 key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key.go b/key.go
index d28e38f..f23dc81 100644
--- a/key.go
+++ b/key.go
@@ -430,7 +430,7 @@ func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
 func (k *Key) InTimeFormat(format string, defaultVal time.Time, candidates []time.Time) time.Time {
 	val := k.MustTimeFormat(format)
 	for _, cand := range candidates {
-		if val == cand {
+		if val.Equal(cand) {
 			return val
 		}
 	}
-- 
2.43.0


From 1ad3a14b43edeaeb43c7506a720ee7aa6b680c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 09/64] fix: an out-of-range number counts as zero, not as the
 nearest limit

---
 key.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index f23dc81..69b2b78 100644
--- a/key.go
+++ b/key.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"reflect"
 	"strconv"
 	"strings"
 	"time"
@@ -278,6 +279,9 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 		k.value = strconv.FormatFloat(defaultVal[0], 'f', -1, 64)
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0
+	}
 	return val
 }
 
@@ -289,6 +293,9 @@ func (k *Key) MustInt(defaultVal ...int) int {
 		k.value = strconv.FormatInt(int64(defaultVal[0]), 10)
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0
+	}
 	return val
 }
 
@@ -300,6 +307,9 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 		k.value = strconv.FormatInt(defaultVal[0], 10)
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0
+	}
 	return val
 }
 
@@ -311,6 +321,9 @@ func (k *Key) MustUint(defaultVal ...uint) uint {
 		k.value = strconv.FormatUint(uint64(defaultVal[0]), 10)
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0
+	}
 	return val
 }
 
@@ -322,6 +335,9 @@ func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 		k.value = strconv.FormatUint(defaultVal[0], 10)
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0
+	}
 	return val
 }
 
@@ -823,8 +839,10 @@ func (k *Key) doParse(strs []string, addInvalid, returnOnInvalid bool, parser Pa
 		if err != nil && returnOnInvalid {
 			return nil, err
 		}
-		if err == nil || addInvalid {
+		if err == nil {
 			vals = append(vals, val)
+		} else if addInvalid {
+			vals = append(vals, reflect.Zero(reflect.TypeOf(val)).Interface())
 		}
 	}
 	return vals, nil
-- 
2.43.0


From 24892727fc27c87e906875d6f166744df2ead0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 10/64] fix: a key of the default section that refers to itself
 is not expanded

---
 key.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/key.go b/key.go
index 69b2b78..b289a9b 100644
--- a/key.go
+++ b/key.go
@@ -164,9 +164,9 @@ func (k *Key) transformValue(val string) string {
 		nk, err := k.s.GetKey(noption)
 		if err != nil || k == nk {
 			nk, _ = k.s.f.Section("").GetKey(noption)
-			if nk == nil {
-				// Stop when no results found in the default section,
-				// and returns the value as-is.
+			if nk == nil || nk == k {
+				// Stop when no results (or only the key itself) found in the
+				// default section, and returns the value as-is.
 				break
 			}
 		}
-- 
2.43.0


From 7e66007f45ff5dbc27309035f999554ce2464e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 11/64] fix: In* and Range* return the default for a value that
 does not parse

---
 key.go | 50 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/key.go b/key.go
index b289a9b..1b16bdf 100644
--- a/key.go
+++ b/key.go
@@ -384,7 +384,10 @@ func (k *Key) In(defaultVal string, candidates []string) string {
 // InFloat64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InFloat64(defaultVal float64, candidates []float64) float64 {
-	val := k.MustFloat64()
+	val, err := k.Float64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -396,7 +399,10 @@ func (k *Key) InFloat64(defaultVal float64, candidates []float64) float64 {
 // InInt always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InInt(defaultVal int, candidates []int) int {
-	val := k.MustInt()
+	val, err := k.Int()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -408,7 +414,10 @@ func (k *Key) InInt(defaultVal int, candidates []int) int {
 // InInt64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InInt64(defaultVal int64, candidates []int64) int64 {
-	val := k.MustInt64()
+	val, err := k.Int64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -420,7 +429,10 @@ func (k *Key) InInt64(defaultVal int64, candidates []int64) int64 {
 // InUint always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InUint(defaultVal uint, candidates []uint) uint {
-	val := k.MustUint()
+	val, err := k.Uint()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -432,7 +444,10 @@ func (k *Key) InUint(defaultVal uint, candidates []uint) uint {
 // InUint64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
-	val := k.MustUint64()
+	val, err := k.Uint64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -444,7 +459,10 @@ func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
 // InTimeFormat always parses with given format and returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InTimeFormat(format string, defaultVal time.Time, candidates []time.Time) time.Time {
-	val := k.MustTimeFormat(format)
+	val, err := k.TimeFormat(format)
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val.Equal(cand) {
 			return val
@@ -462,7 +480,10 @@ func (k *Key) InTime(defaultVal time.Time, candidates []time.Time) time.Time {
 // RangeFloat64 checks if value is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeFloat64(defaultVal, min, max float64) float64 {
-	val := k.MustFloat64()
+	val, err := k.Float64()
+	if err != nil {
+		return defaultVal
+	}
 	if val < min || val > max {
 		return defaultVal
 	}
@@ -472,7 +493,10 @@ func (k *Key) RangeFloat64(defaultVal, min, max float64) float64 {
 // RangeInt checks if value is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeInt(defaultVal, min, max int) int {
-	val := k.MustInt()
+	val, err := k.Int()
+	if err != nil {
+		return defaultVal
+	}
 	if val < min || val > max {
 		return defaultVal
 	}
@@ -482,7 +506,10 @@ func (k *Key) RangeInt(defaultVal, min, max int) int {
 // RangeInt64 checks if value is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeInt64(defaultVal, min, max int64) int64 {
-	val := k.MustInt64()
+	val, err := k.Int64()
+	if err != nil {
+		return defaultVal
+	}
 	if val < min || val > max {
 		return defaultVal
 	}
@@ -492,7 +519,10 @@ func (k *Key) RangeInt64(defaultVal, min, max int64) int64 {
 // RangeTimeFormat checks if value with given format is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeTimeFormat(format string, defaultVal, min, max time.Time) time.Time {
-	val := k.MustTimeFormat(format)
+	val, err := k.TimeFormat(format)
+	if err != nil {
+		return defaultVal
+	}
 	if val.Unix() < min.Unix() || val.Unix() > max.Unix() {
 		return defaultVal
 	}
-- 
2.43.0


From 2e70bffd083ff41e9238f690e05e9ed109a58b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 12/64] fix: an inline comment starts at the first of " #" and
 " ;"

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 44fc526..ad1d869 100644
--- a/parser.go
+++ b/parser.go
@@ -273,8 +273,8 @@ func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
 		var i int
 		if p.options.SpaceBeforeInlineComment {
 			i = strings.Index(line, " #")
-			if i == -1 {
-				i = strings.Index(line, " ;")
+			if j := strings.Index(line, " ;"); i == -1 || (j > -1 && j < i) {
+				i = j
 			}
 
 		} else {
-- 
2.43.0


From d478d30e22eaae5db23c959fac047f33185e4005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 13/64] fix: skip the whole key-value delimiter when it is a
 multibyte character

---
 parser.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index ad1d869..7b780de 100644
--- a/parser.go
+++ b/parser.go
@@ -23,6 +23,7 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const minReaderBufferSize = 4096
@@ -157,7 +158,7 @@ func readKeyName(delimiters string, in []byte) (string, int, error) {
 			return "", -1, ErrDelimiterNotFound{line}
 		}
 		endIdx = pos + i
-		return strings.TrimSpace(line[startIdx:pos]), endIdx + startIdx + 1, nil
+		return strings.TrimSpace(line[startIdx:pos]), endIdx + startIdx + delimiterSize(line[endIdx+startIdx:]), nil
 	}
 
 	endIdx = strings.IndexAny(line, delimiters)
@@ -168,7 +169,14 @@ func readKeyName(delimiters string, in []byte) (string, int, error) {
 		return "", -1, ErrEmptyKeyName{line}
 	}
 
-	return strings.TrimSpace(line[0:endIdx]), endIdx + 1, nil
+	return strings.TrimSpace(line[0:endIdx]), endIdx + delimiterSize(line[endIdx:]), nil
+}
+
+// delimiterSize returns the number of bytes of the key-value delimiter that
+// the string starts with.
+func delimiterSize(in string) int {
+	_, size := utf8.DecodeRuneInString(in)
+	return size
 }
 
 func (p *parser) readMultilines(line, val, valQuote string) (string, error) {
-- 
2.43.0


From 730d7d1586fd38a17dfe52d6dd7c837e4ac8418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 14/64] fix: read Python-like multi-line values that do not fit
 the read buffer, report read errors in them

---
 parser.go | 61 +++++++++++++++++--------------------------------------
 1 file changed, 19 insertions(+), 42 deletions(-)

diff --git a/parser.go b/parser.go
index 7b780de..58f645c 100644
--- a/parser.go
+++ b/parser.go
@@ -233,12 +233,12 @@ func hasSurroundedQuote(in string, quote byte) bool {
 		strings.IndexByte(in[1:], quote) == len(in)-2
 }
 
-func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
+func (p *parser) readValue(in []byte) (string, error) {
 
 	line := strings.TrimLeftFunc(string(in), unicode.IsSpace)
 	if len(line) == 0 {
 		if p.options.AllowPythonMultilineValues && len(in) > 0 && in[len(in)-1] == '\n' {
-			return p.readPythonMultilines(line, bufferSize)
+			return p.readPythonMultilines(line)
 		}
 		return "", nil
 	}
@@ -304,44 +304,42 @@ func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
 		line = strings.ReplaceAll(line, `\;`, ";")
 		line = strings.ReplaceAll(line, `\#`, "#")
 	} else if p.options.AllowPythonMultilineValues && lastChar == '\n' {
-		return p.readPythonMultilines(line, bufferSize)
+		return p.readPythonMultilines(line)
 	}
 
 	return line, nil
 }
 
-func (p *parser) readPythonMultilines(line string, bufferSize int) (string, error) {
-	parserBufferPeekResult, _ := p.buf.Peek(bufferSize)
-	peekBuffer := bytes.NewBuffer(parserBufferPeekResult)
-
+func (p *parser) readPythonMultilines(line string) (string, error) {
 	for {
-		peekData, peekErr := peekBuffer.ReadBytes('\n')
+		// Peek no more than the first byte, it tells if the next line continues
+		// the value no matter how long the line is.
+		peekData, peekErr := p.buf.Peek(1)
 		if peekErr != nil && peekErr != io.EOF {
 			p.debug("readPythonMultilines: failed to peek with error: %v", peekErr)
 			return "", peekErr
 		}
 
-		p.debug("readPythonMultilines: parsing %q", string(peekData))
-
-		peekMatches := pythonMultiline.FindStringSubmatch(string(peekData))
-		p.debug("readPythonMultilines: matched %d parts", len(peekMatches))
-		for n, v := range peekMatches {
-			p.debug("   %d: %q", n, v)
-		}
+		p.debug("readPythonMultilines: parsing line starting with %q", string(peekData))
 
 		// Return if not a Python multiline value.
-		if len(peekMatches) != 3 {
+		if !pythonMultiline.Match(peekData) {
 			p.debug("readPythonMultilines: end of value, got: %q", line)
 			return line, nil
 		}
 
-		// Advance the parser reader (buffer) in-sync with the peek buffer.
-		_, err := p.buf.Discard(len(peekData))
+		data, err := p.readUntil('\n')
 		if err != nil {
-			p.debug("readPythonMultilines: failed to skip to the end, returning error")
+			p.debug("readPythonMultilines: failed to read the line, returning error")
 			return "", err
 		}
 
+		peekMatches := pythonMultiline.FindStringSubmatch(string(data))
+		p.debug("readPythonMultilines: matched %d parts", len(peekMatches))
+		for n, v := range peekMatches {
+			p.debug("   %d: %q", n, v)
+		}
+
 		line += "\n" + peekMatches[0]
 	}
 }
@@ -377,27 +375,6 @@ func (f *File) parse(reader io.Reader) (err error) {
 	var line []byte
 	var inUnparseableSection bool
 
-	// NOTE: Iterate and increase `currentPeekSize` until
-	// the size of the parser buffer is found.
-	// TODO(unknwon): When Golang 1.10 is the lowest version supported, replace with `parserBufferSize := p.buf.Size()`.
-	parserBufferSize := 0
-	// NOTE: Peek 4kb at a time.
-	currentPeekSize := minReaderBufferSize
-
-	if f.options.AllowPythonMultilineValues {
-		for {
-			peekBytes, _ := p.buf.Peek(currentPeekSize)
-			peekBytesLength := len(peekBytes)
-
-			if parserBufferSize >= peekBytesLength {
-				break
-			}
-
-			currentPeekSize *= 2
-			parserBufferSize = peekBytesLength
-		}
-	}
-
 	for !p.isEOF {
 		line, err = p.readUntil('\n')
 		if err != nil {
@@ -480,7 +457,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 			case IsErrDelimiterNotFound(err):
 				switch {
 				case f.options.AllowBooleanKeys:
-					kname, err := p.readValue(line, parserBufferSize)
+					kname, err := p.readValue(line)
 					if err != nil {
 						return err
 					}
@@ -509,7 +486,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 			p.count++
 		}
 
-		value, err := p.readValue(line[offset:], parserBufferSize)
+		value, err := p.readValue(line[offset:])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From bff6a31f60704736ea092e9cc510b5e1b5a3e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 15/64] fix: do not duplicate raw section bodies and nested
 values on reload

---
 parser.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parser.go b/parser.go
index 58f645c..be5f6e3 100644
--- a/parser.go
+++ b/parser.go
@@ -375,6 +375,11 @@ func (f *File) parse(reader io.Reader) (err error) {
 	var line []byte
 	var inUnparseableSection bool
 
+	// Raw bodies and nested values accumulate, keep track of those that are
+	// already (re)started by the data source being parsed.
+	parsedBodies := make(map[*Section]bool)
+	parsedNested := make(map[*Key]bool)
+
 	for !p.isEOF {
 		line, err = p.readUntil('\n')
 		if err != nil {
@@ -384,6 +389,11 @@ func (f *File) parse(reader io.Reader) (err error) {
 		if f.options.AllowNestedValues &&
 			isLastValueEmpty && len(line) > 0 {
 			if line[0] == ' ' || line[0] == '\t' {
+				if !parsedNested[lastRegularKey] {
+					// Replace what an earlier pass has left, e.g. on reload.
+					lastRegularKey.nestedValues = nil
+					parsedNested[lastRegularKey] = true
+				}
 				err = lastRegularKey.addNestedValue(string(bytes.TrimSpace(line)))
 				if err != nil {
 					return err
@@ -445,6 +455,11 @@ func (f *File) parse(reader io.Reader) (err error) {
 		}
 
 		if inUnparseableSection {
+			if !parsedBodies[section] {
+				// Replace what an earlier pass has left, e.g. on reload.
+				section.rawBody = ""
+				parsedBodies[section] = true
+			}
 			section.isRawSection = true
 			section.rawBody += string(line)
 			continue
-- 
2.43.0


From 8c63b73b747a73c0d89a329e395d463245775fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 16/64] fix: write the value of a boolean key that is no longer
 true

---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 97ff89f..a8322b4 100644
--- a/file.go
+++ b/file.go
@@ -453,7 +453,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 					return false, err
 				}
 
-				if key.isBooleanType {
+				if key.isBooleanType && val == "true" {
 					buf.WriteString(LineBreak)
 					return true, nil
 				}
-- 
2.43.0


From fcdf5f064b4eeaeeb33835fb3ccdb1aea4180834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 17/64] fix: do not append the next header to an unterminated
 raw section body

---
 file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index a8322b4..db908f7 100644
--- a/file.go
+++ b/file.go
@@ -382,7 +382,9 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				return nil, err
 			}
 
-			if PrettySection && !isLastSection {
+			// The next header needs a line of its own
+			isBodyOpen := len(sec.rawBody) > 0 && !strings.HasSuffix(sec.rawBody, "\n")
+			if (PrettySection || isBodyOpen) && !isLastSection {
 				// Put a line between sections
 				if _, err := buf.WriteString(LineBreak); err != nil {
 					return nil, err
-- 
2.43.0


From b2d524458ab5cc7b44dc31490247f3afd6e9de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 18/64] fix: quote written values that would not be read back
 as they are

---
 file.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index db908f7..a1820f1 100644
--- a/file.go
+++ b/file.go
@@ -337,6 +337,30 @@ func (f *File) Append(source interface{}, others ...interface{}) error {
 	return f.Reload()
 }
 
+// needsBackquotes returns true if the parser would not read the value back
+// unless it is surrounded by "`".
+func (f *File) needsBackquotes(val string) bool {
+	opts := &f.options
+	switch {
+	// The last backslash would continue the value on the next line
+	case !opts.IgnoreContinuation && strings.HasSuffix(strings.TrimSpace(val), `\`):
+		return true
+	// The comment symbols would be unescaped
+	case opts.UnescapeValueCommentSymbols && (strings.Contains(val, `\#`) || strings.Contains(val, `\;`)):
+		return true
+	// The leading quotes would start a quoted value
+	case strings.HasPrefix(val, `"""`), opts.UnescapeValueDoubleQuotes && strings.HasPrefix(val, `"`):
+		return true
+	// The surrounding quotes would be trimmed
+	case !opts.PreserveSurroundedQuote && (hasSurroundedQuote(val, '"') || hasSurroundedQuote(val, '\'')):
+		return true
+	// The surrounding spaces can not be protected with double quotes
+	case len(strings.TrimSpace(val)) != len(val):
+		return opts.PreserveSurroundedQuote || strings.Contains(val, `"`)
+	}
+	return false
+}
+
 func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
 
@@ -466,10 +490,14 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				}
 
 				// In case key value contains "\n", "`", "\"", "#" or ";"
-				if strings.ContainsAny(val, "\n`") {
+				if strings.Contains(val, "\n") && strings.Contains(val, `"""`) && !strings.Contains(val, "`") {
+					val = "`" + val + "`"
+				} else if strings.ContainsAny(val, "\n`") {
 					val = `"""` + val + `"""`
 				} else if !f.options.IgnoreInlineComment && strings.ContainsAny(val, "#;") {
 					val = "`" + val + "`"
+				} else if f.needsBackquotes(val) {
+					val = "`" + val + "`"
 				} else if len(strings.TrimSpace(val)) != len(val) {
 					val = `"` + val + `"`
 				}
-- 
2.43.0


From 6ce29a9a50361260f5b31d6ac28e4eae49d4e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 19/64] fix: quote written key names that would not be read
 back as they are

---
 file.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/file.go b/file.go
index a1820f1..33fc5a2 100644
--- a/file.go
+++ b/file.go
@@ -361,6 +361,21 @@ func (f *File) needsBackquotes(val string) bool {
 	return false
 }
 
+// needsKeyQuotes returns true if the parser would not read the key name back
+// unless it is surrounded by quotes.
+func (f *File) needsKeyQuotes(key *Key) bool {
+	if key.isAutoIncrement {
+		return false
+	}
+	if strings.Contains(key.name, "\"") || strings.ContainsAny(key.name, f.options.KeyValueDelimiters) ||
+		strings.IndexAny(key.name, "#;[") == 0 {
+		return true
+	}
+	// The parser reads the name of a boolean key as if it was a value
+	return key.isBooleanType &&
+		(!f.options.IgnoreInlineComment && strings.ContainsAny(key.name, "#;") || f.needsBackquotes(key.name))
+}
+
 func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
 
@@ -424,11 +439,11 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		if PrettyFormat {
 			for _, kname := range sec.keyList {
 				keyLength := len(kname)
-				// First case will surround key by ` and second by """
-				if strings.Contains(kname, "\"") || strings.ContainsAny(kname, f.options.KeyValueDelimiters) {
-					keyLength += 2
-				} else if strings.Contains(kname, "`") {
+				// First case will surround key by """ and second by `
+				if strings.Contains(kname, "`") {
 					keyLength += 6
+				} else if f.needsKeyQuotes(sec.keys[kname]) {
+					keyLength += 2
 				}
 
 				if keyLength > alignLength {
@@ -468,10 +483,10 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			switch {
 			case key.isAutoIncrement:
 				kname = "-"
-			case strings.Contains(kname, "\"") || strings.ContainsAny(kname, f.options.KeyValueDelimiters):
-				kname = "`" + kname + "`"
 			case strings.Contains(kname, "`"):
 				kname = `"""` + kname + `"""`
+			case f.needsKeyQuotes(key):
+				kname = "`" + kname + "`"
 			}
 
 			writeKeyValue := func(val string) (bool, error) {
-- 
2.43.0


From 0318b55f2a8443131ce36aed6d62e55feb834294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 20/64] fix: hold the lock in block mode wherever shared state
 is read or changed

---
 file.go    | 21 ++++++++++++++++++---
 key.go     | 53 +++++++++++++++++++++++++++++++++++++++++------------
 section.go | 32 +++++++++++++++++++++++++++++++-
 3 files changed, 90 insertions(+), 16 deletions(-)

diff --git a/file.go b/file.go
index 33fc5a2..32c5146 100644
--- a/file.go
+++ b/file.go
@@ -117,6 +117,11 @@ func (f *File) NewRawSection(name, body string) (*Section, error) {
 		return nil, err
 	}
 
+	if f.BlockMode {
+		f.lock.Lock()
+		defer f.lock.Unlock()
+	}
+
 	section.isRawSection = true
 	section.rawBody = body
 	return section, nil
@@ -221,6 +226,11 @@ func (f *File) ChildSections(name string) []*Section {
 
 // SectionStrings returns list of section names.
 func (f *File) SectionStrings() []string {
+	if f.BlockMode {
+		f.lock.RLock()
+		defer f.lock.RUnlock()
+	}
+
 	list := make([]string, len(f.sectionList))
 	copy(list, f.sectionList)
 	return list
@@ -383,11 +393,16 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		equalSign = fmt.Sprintf(" %s ", f.options.KeyValueDelimiterOnWrite)
 	}
 
+	if f.BlockMode {
+		f.lock.RLock()
+		defer f.lock.RUnlock()
+	}
+
 	// Use buffer to make sure target is safe until finish encoding.
 	buf := bytes.NewBuffer(nil)
 	lastSectionIdx := len(f.sectionList) - 1
 	for i, sname := range f.sectionList {
-		sec := f.SectionWithIndex(sname, f.sectionIndexes[i])
+		sec := f.sections[sname][f.sectionIndexes[i]]
 		if len(sec.Comment) > 0 {
 			// Support multiline comments
 			lines := strings.Split(sec.Comment, LineBreak)
@@ -455,7 +470,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 
 	KeyList:
 		for _, kname := range sec.keyList {
-			key := sec.Key(kname)
+			key := sec.keys[kname]
 			if len(key.Comment) > 0 {
 				if len(indent) > 0 && sname != DefaultSection {
 					buf.WriteString(indent)
@@ -522,7 +537,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				return false, nil
 			}
 
-			shadows := key.ValueWithShadows()
+			shadows := key.valueWithShadows()
 			if len(shadows) == 0 {
 				if _, err := writeKeyValue(""); err != nil {
 					return nil, err
diff --git a/key.go b/key.go
index 1b16bdf..237835e 100644
--- a/key.go
+++ b/key.go
@@ -79,6 +79,11 @@ func (k *Key) AddShadow(val string) error {
 	if !k.s.f.options.AllowShadows {
 		return errors.New("shadow key is not allowed")
 	}
+
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
 	return k.addShadow(val)
 }
 
@@ -96,6 +101,11 @@ func (k *Key) AddNestedValue(val string) error {
 	if !k.s.f.options.AllowNestedValues {
 		return errors.New("nested value is not allowed")
 	}
+
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
 	return k.addNestedValue(val)
 }
 
@@ -109,12 +119,26 @@ func (k *Key) Name() string {
 
 // Value returns raw value of key for performance purpose.
 func (k *Key) Value() string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	return k.value
 }
 
 // ValueWithShadows returns raw values of key and its shadows if any. Shadow
 // keys with empty values are ignored from the returned list.
 func (k *Key) ValueWithShadows() []string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
+	return k.valueWithShadows()
+}
+
+func (k *Key) valueWithShadows() []string {
 	if len(k.shadows) == 0 {
 		if k.value == "" {
 			return []string{}
@@ -137,7 +161,12 @@ func (k *Key) ValueWithShadows() []string {
 // NestedValues returns nested values stored in the key.
 // It is possible returned value is nil if no nested values stored in the key.
 func (k *Key) NestedValues() []string {
-	return k.nestedValues
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
+	return append([]string(nil), k.nestedValues...)
 }
 
 // transformValue takes a raw value and transforms to its final string.
@@ -172,14 +201,14 @@ func (k *Key) transformValue(val string) string {
 		}
 
 		// Substitute by new value and take off leading '%(' and trailing ')s'.
-		val = strings.Replace(val, vr, nk.value, -1)
+		val = strings.Replace(val, vr, nk.Value(), -1)
 	}
 	return val
 }
 
 // String returns string representation of value.
 func (k *Key) String() string {
-	return k.transformValue(k.value)
+	return k.transformValue(k.Value())
 }
 
 // Validate accepts a validate function which can
@@ -254,7 +283,7 @@ func (k *Key) Time() (time.Time, error) {
 func (k *Key) MustString(defaultVal string) string {
 	val := k.String()
 	if len(val) == 0 {
-		k.value = defaultVal
+		k.SetValue(defaultVal)
 		return defaultVal
 	}
 	return val
@@ -265,7 +294,7 @@ func (k *Key) MustString(defaultVal string) string {
 func (k *Key) MustBool(defaultVal ...bool) bool {
 	val, err := k.Bool()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatBool(defaultVal[0])
+		k.SetValue(strconv.FormatBool(defaultVal[0]))
 		return defaultVal[0]
 	}
 	return val
@@ -276,7 +305,7 @@ func (k *Key) MustBool(defaultVal ...bool) bool {
 func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 	val, err := k.Float64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatFloat(defaultVal[0], 'f', -1, 64)
+		k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))
 		return defaultVal[0]
 	}
 	if err != nil {
@@ -290,7 +319,7 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 func (k *Key) MustInt(defaultVal ...int) int {
 	val, err := k.Int()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(int64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	if err != nil {
@@ -304,7 +333,7 @@ func (k *Key) MustInt(defaultVal ...int) int {
 func (k *Key) MustInt64(defaultVal ...int64) int64 {
 	val, err := k.Int64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(defaultVal[0], 10)
+		k.SetValue(strconv.FormatInt(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	if err != nil {
@@ -318,7 +347,7 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 func (k *Key) MustUint(defaultVal ...uint) uint {
 	val, err := k.Uint()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(uint64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatUint(uint64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	if err != nil {
@@ -332,7 +361,7 @@ func (k *Key) MustUint(defaultVal ...uint) uint {
 func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 	val, err := k.Uint64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(defaultVal[0], 10)
+		k.SetValue(strconv.FormatUint(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	if err != nil {
@@ -346,7 +375,7 @@ func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 	val, err := k.Duration()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].String()
+		k.SetValue(defaultVal[0].String())
 		return defaultVal[0]
 	}
 	return val
@@ -357,7 +386,7 @@ func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 func (k *Key) MustTimeFormat(format string, defaultVal ...time.Time) time.Time {
 	val, err := k.TimeFormat(format)
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].Format(format)
+		k.SetValue(defaultVal[0].Format(format))
 		return defaultVal[0]
 	}
 	return val
diff --git a/section.go b/section.go
index adb82ed..94540b4 100644
--- a/section.go
+++ b/section.go
@@ -49,11 +49,21 @@ func (s *Section) Name() string {
 // Body returns rawBody of Section if the section was marked as unparseable.
 // It still follows the other rules of the INI format surrounding leading/trailing whitespace.
 func (s *Section) Body() string {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	return strings.TrimSpace(s.rawBody)
 }
 
 // SetBody updates body content only if section is raw.
 func (s *Section) SetBody(body string) {
+	if s.f.BlockMode {
+		s.f.lock.Lock()
+		defer s.f.lock.Unlock()
+	}
+
 	if !s.isRawSection {
 		return
 	}
@@ -96,6 +106,11 @@ func (s *Section) NewBooleanKey(name string) (*Key, error) {
 		return nil, err
 	}
 
+	if s.f.BlockMode {
+		s.f.lock.Lock()
+		defer s.f.lock.Unlock()
+	}
+
 	key.isBooleanType = true
 	return key, nil
 }
@@ -172,9 +187,14 @@ func (s *Section) Key(name string) *Key {
 
 // Keys returns list of keys of section.
 func (s *Section) Keys() []*Key {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	keys := make([]*Key, len(s.keyList))
 	for i := range s.keyList {
-		keys[i] = s.Key(s.keyList[i])
+		keys[i] = s.keys[s.keyList[i]]
 	}
 	return keys
 }
@@ -201,6 +221,11 @@ func (s *Section) ParentKeys() []*Key {
 
 // KeyStrings returns list of key names of section.
 func (s *Section) KeyStrings() []string {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	list := make([]string, len(s.keyList))
 	copy(list, s.keyList)
 	return list
@@ -243,6 +268,11 @@ func (s *Section) DeleteKey(name string) {
 // For example, "[parent.child1]" and "[parent.child12]" are child sections
 // of section "[parent]".
 func (s *Section) ChildSections() []*Section {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	prefix := s.name + s.f.options.ChildSectionDelimiter
 	children := make([]*Section, 0, 3)
 	for i, name := range s.f.sectionList {
-- 
2.43.0


From 2ec1cb20c1a5256588a615dbe3887d193526824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 21/64] fix: Key does not overwrite the value of a key that is
 created concurrently

---
 section.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/section.go b/section.go
index 94540b4..90cdf3f 100644
--- a/section.go
+++ b/section.go
@@ -72,6 +72,11 @@ func (s *Section) SetBody(body string) {
 
 // NewKey creates a new key to given section.
 func (s *Section) NewKey(name, val string) (*Key, error) {
+	return s.newKey(name, val, false)
+}
+
+// newKey creates a new key, or returns the existing one as it is when desired.
+func (s *Section) newKey(name, val string, keepExisting bool) (*Key, error) {
 	if len(name) == 0 {
 		return nil, errors.New("error creating new key: empty key name")
 	} else if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
@@ -84,6 +89,9 @@ func (s *Section) NewKey(name, val string) (*Key, error) {
 	}
 
 	if inSlice(name, s.keyList) {
+		if keepExisting {
+			return s.keys[name], nil
+		}
 		if s.f.options.AllowShadows {
 			if err := s.keys[name].addShadow(val); err != nil {
 				return nil, err
@@ -179,7 +187,8 @@ func (s *Section) Key(name string) *Key {
 	if err != nil {
 		// It's OK here because the only possible error is empty key name,
 		// but if it's empty, this piece of code won't be executed.
-		key, _ = s.NewKey(name, "")
+		// The key may have been created by others in the meantime.
+		key, _ = s.newKey(name, "", true)
 		return key
 	}
 	return key
-- 
2.43.0


From dc396d3d62506140260bf35c4d4a3758f9168582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 22/64] fix: reading a value does not create the default
 section

---
 key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 237835e..57f8c5f 100644
--- a/key.go
+++ b/key.go
@@ -192,7 +192,10 @@ func (k *Key) transformValue(val string) string {
 		// If not found or found the key itself, then search again in default section.
 		nk, err := k.s.GetKey(noption)
 		if err != nil || k == nk {
-			nk, _ = k.s.f.Section("").GetKey(noption)
+			nk = nil
+			if sec, err := k.s.f.GetSection(""); err == nil {
+				nk, _ = sec.GetKey(noption)
+			}
 			if nk == nil || nk == k {
 				// Stop when no results (or only the key itself) found in the
 				// default section, and returns the value as-is.
-- 
2.43.0


From d15779d588818960d4ba6ef4fb1d444d802605f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 23/64] fix: do not panic mapping to named types, pointers to
 them, and structs other than time.Time

---
 struct.go | 103 ++++++++++++++++++++----------------------------------
 1 file changed, 38 insertions(+), 65 deletions(-)

diff --git a/struct.go b/struct.go
index a486b2f..3f3d73b 100644
--- a/struct.go
+++ b/struct.go
@@ -75,7 +75,10 @@ func parseDelim(actual string) string {
 	return ","
 }
 
-var reflectTime = reflect.TypeOf(time.Now()).Kind()
+var (
+	reflectTimeType = reflect.TypeOf(time.Time{})
+	reflectTime     = reflectTimeType.Kind()
+)
 
 // setSliceWithProperType sets proper values to slice based on its type.
 func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow, isStrict bool) error {
@@ -111,6 +114,9 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.Bool:
 		vals, err = key.parseBools(strs, true, false)
 	case reflectTime:
+		if !reflectTimeType.ConvertibleTo(field.Type().Elem()) {
+			return fmt.Errorf("unsupported type '[]%s'", field.Type().Elem())
+		}
 		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, false)
 	default:
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
@@ -123,21 +129,21 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	for i := 0; i < numVals; i++ {
 		switch sliceOf {
 		case reflect.String:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]string)[i]))
+			slice.Index(i).SetString(vals.([]string)[i])
 		case reflect.Int:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int)[i]))
+			slice.Index(i).SetInt(int64(vals.([]int)[i]))
 		case reflect.Int64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int64)[i]))
+			slice.Index(i).SetInt(vals.([]int64)[i])
 		case reflect.Uint:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint)[i]))
+			slice.Index(i).SetUint(uint64(vals.([]uint)[i]))
 		case reflect.Uint64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint64)[i]))
+			slice.Index(i).SetUint(vals.([]uint64)[i])
 		case reflect.Float64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]float64)[i]))
+			slice.Index(i).SetFloat(vals.([]float64)[i])
 		case reflect.Bool:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]bool)[i]))
+			slice.Index(i).SetBool(vals.([]bool)[i])
 		case reflectTime:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]time.Time)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]time.Time)[i]).Convert(field.Type().Elem()))
 		}
 	}
 	field.Set(slice)
@@ -156,110 +162,77 @@ func wrapStrictError(err error, isStrict bool) error {
 // because we want to use default value that is already assigned to struct.
 func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim string, allowShadow, isStrict bool) error {
 	vt := t
+	// A pointer field is only replaced once the new value is known.
+	target := field
 	isPtr := t.Kind() == reflect.Ptr
 	if isPtr {
 		vt = t.Elem()
+		target = reflect.New(vt).Elem()
 	}
 	switch vt.Kind() {
 	case reflect.String:
 		stringVal := key.String()
-		if isPtr {
-			field.Set(reflect.ValueOf(&stringVal))
-		} else if len(stringVal) > 0 {
-			field.SetString(key.String())
+		if isPtr || len(stringVal) > 0 {
+			target.SetString(stringVal)
 		}
 	case reflect.Bool:
 		boolVal, err := key.Bool()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-		if isPtr {
-			field.Set(reflect.ValueOf(&boolVal))
-		} else {
-			field.SetBool(boolVal)
-		}
+		target.SetBool(boolVal)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		// ParseDuration will not return err for `0`, so check the type name
 		if vt.Name() == "Duration" {
 			durationVal, err := key.Duration()
 			if err != nil {
-				if intVal, err := key.Int64(); err == nil {
-					field.SetInt(intVal)
-					return nil
+				intVal, intErr := key.Int64()
+				if intErr != nil {
+					return wrapStrictError(err, isStrict)
 				}
-				return wrapStrictError(err, isStrict)
+				target.SetInt(intVal)
+			} else if isPtr || int64(durationVal) > 0 {
+				target.SetInt(int64(durationVal))
 			}
-			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
-			} else if int64(durationVal) > 0 {
-				field.Set(reflect.ValueOf(durationVal))
-			}
-			return nil
+			break
 		}
 
 		intVal, err := key.Int64()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-		if isPtr {
-			pv := reflect.New(t.Elem())
-			pv.Elem().SetInt(intVal)
-			field.Set(pv)
-		} else {
-			field.SetInt(intVal)
-		}
+		target.SetInt(intVal)
 	//	byte is an alias for uint8, so supporting uint8 breaks support for byte
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		durationVal, err := key.Duration()
-		// Skip zero value
-		if err == nil && uint64(durationVal) > 0 {
-			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
-			} else {
-				field.Set(reflect.ValueOf(durationVal))
-			}
-			return nil
-		}
-
 		uintVal, err := key.Uint64()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-		if isPtr {
-			pv := reflect.New(t.Elem())
-			pv.Elem().SetUint(uintVal)
-			field.Set(pv)
-		} else {
-			field.SetUint(uintVal)
-		}
+		target.SetUint(uintVal)
 
 	case reflect.Float32, reflect.Float64:
 		floatVal, err := key.Float64()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-		if isPtr {
-			pv := reflect.New(t.Elem())
-			pv.Elem().SetFloat(floatVal)
-			field.Set(pv)
-		} else {
-			field.SetFloat(floatVal)
-		}
+		target.SetFloat(floatVal)
 	case reflectTime:
+		if !reflectTimeType.ConvertibleTo(vt) {
+			return wrapStrictError(fmt.Errorf("unsupported type %q", t), isStrict)
+		}
 		timeVal, err := key.Time()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-		if isPtr {
-			field.Set(reflect.ValueOf(&timeVal))
-		} else {
-			field.Set(reflect.ValueOf(timeVal))
-		}
+		target.Set(reflect.ValueOf(timeVal).Convert(vt))
 	case reflect.Slice:
 		return setSliceWithProperType(key, field, delim, allowShadow, isStrict)
 	default:
 		return fmt.Errorf("unsupported type %q", t)
 	}
+	if isPtr {
+		field.Set(target.Addr())
+	}
 	return nil
 }
 
-- 
2.43.0


From 6ceb8dc8e7809534cf3367e86173418c2f13c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 24/64] fix: strict mapping reports invalid list elements

---
 struct.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index 3f3d73b..4449930 100644
--- a/struct.go
+++ b/struct.go
@@ -102,22 +102,22 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.String:
 		vals = strs
 	case reflect.Int:
-		vals, err = key.parseInts(strs, true, false)
+		vals, err = key.parseInts(strs, true, isStrict)
 	case reflect.Int64:
-		vals, err = key.parseInt64s(strs, true, false)
+		vals, err = key.parseInt64s(strs, true, isStrict)
 	case reflect.Uint:
-		vals, err = key.parseUints(strs, true, false)
+		vals, err = key.parseUints(strs, true, isStrict)
 	case reflect.Uint64:
-		vals, err = key.parseUint64s(strs, true, false)
+		vals, err = key.parseUint64s(strs, true, isStrict)
 	case reflect.Float64:
-		vals, err = key.parseFloat64s(strs, true, false)
+		vals, err = key.parseFloat64s(strs, true, isStrict)
 	case reflect.Bool:
-		vals, err = key.parseBools(strs, true, false)
+		vals, err = key.parseBools(strs, true, isStrict)
 	case reflectTime:
 		if !reflectTimeType.ConvertibleTo(field.Type().Elem()) {
 			return fmt.Errorf("unsupported type '[]%s'", field.Type().Elem())
 		}
-		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, false)
+		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, isStrict)
 	default:
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 	}
-- 
2.43.0


From 1b1e3b1f22455cef8c5986cad205dcd9ce7aa082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 25/64] fix: do not truncate numbers that overflow the field
 they are mapped to

---
 struct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/struct.go b/struct.go
index 4449930..df4f429 100644
--- a/struct.go
+++ b/struct.go
@@ -201,6 +201,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
+		if target.OverflowInt(intVal) {
+			return wrapStrictError(fmt.Errorf("value %d overflows type %q", intVal, t), isStrict)
+		}
 		target.SetInt(intVal)
 	//	byte is an alias for uint8, so supporting uint8 breaks support for byte
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
@@ -208,6 +211,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
+		if target.OverflowUint(uintVal) {
+			return wrapStrictError(fmt.Errorf("value %d overflows type %q", uintVal, t), isStrict)
+		}
 		target.SetUint(uintVal)
 
 	case reflect.Float32, reflect.Float64:
@@ -215,6 +221,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
+		if target.OverflowFloat(floatVal) {
+			return wrapStrictError(fmt.Errorf("value %g overflows type %q", floatVal, t), isStrict)
+		}
 		target.SetFloat(floatVal)
 	case reflectTime:
 		if !reflectTimeType.ConvertibleTo(vt) {
-- 
2.43.0


From afec26dabea8c258c12f1f64eb79b4b836072cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 26/64] fix: map negative durations

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index df4f429..542a897 100644
--- a/struct.go
+++ b/struct.go
@@ -191,7 +191,7 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 					return wrapStrictError(err, isStrict)
 				}
 				target.SetInt(intVal)
-			} else if isPtr || int64(durationVal) > 0 {
+			} else if isPtr || int64(durationVal) != 0 {
 				target.SetInt(int64(durationVal))
 			}
 			break
-- 
2.43.0


From 6086c667dadea26de389caf5dc02376c7826a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 27/64] fix: reflect the fields after an empty list of sections
 or a StructReflector

---
 struct.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 542a897..00196eb 100644
--- a/struct.go
+++ b/struct.go
@@ -580,7 +580,10 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		if r, ok := field.Interface().(StructReflector); ok {
-			return r.ReflectINIStruct(s.f)
+			if err := r.ReflectINIStruct(s.f); err != nil {
+				return err
+			}
+			continue
 		}
 
 		fieldName := s.parseFieldName(tpField.Name, rawName)
@@ -618,7 +621,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
 			slice := field.Slice(0, field.Len())
 			if field.Len() == 0 {
-				return nil
+				continue
 			}
 			sliceOf := field.Type().Elem().Kind()
 
-- 
2.43.0


From e223138f973ee8760891475fdc640a3390198645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 28/64] fix: do not panic reflecting from nil pointers, reflect
 *time.Time as a key

---
 struct.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 00196eb..c1014c4 100644
--- a/struct.go
+++ b/struct.go
@@ -591,6 +591,12 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
+		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct &&
+			!reflectTimeType.ConvertibleTo(tpField.Type.Elem())
+		if isStructPtr && field.IsNil() {
+			continue
+		}
+
 		if extends && tpField.Anonymous && (tpField.Type.Kind() == reflect.Ptr || tpField.Type.Kind() == reflect.Struct) {
 			if err := s.reflectFrom(field); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
@@ -598,7 +604,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
-		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct) ||
+		if isStructPtr ||
 			(tpField.Type.Kind() == reflect.Struct && tpField.Type.Name() != "Time") {
 			// Note: The only error here is section doesn't exist.
 			sec, err := s.f.GetSection(fieldName)
-- 
2.43.0


From af001e6f601f5d87019d9a6b1d18ab25bcc7cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 29/64] fix: tell time.Time from other structs by its type when
 reflecting

---
 struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index c1014c4..f4d3830 100644
--- a/struct.go
+++ b/struct.go
@@ -592,7 +592,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct &&
-			!reflectTimeType.ConvertibleTo(tpField.Type.Elem())
+			tpField.Type.Elem() != reflectTimeType
 		if isStructPtr && field.IsNil() {
 			continue
 		}
@@ -605,7 +605,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		if isStructPtr ||
-			(tpField.Type.Kind() == reflect.Struct && tpField.Type.Name() != "Time") {
+			(tpField.Type.Kind() == reflect.Struct && tpField.Type != reflectTimeType) {
 			// Note: The only error here is section doesn't exist.
 			sec, err := s.f.GetSection(fieldName)
 			if err != nil {
-- 
2.43.0


From f1f7ca97cd56dc4fc29562a7f1e57a853f244d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 30/64] fix: map non-unique sections to a slice of pointers

---
 struct.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index f4d3830..8e8e9b3 100644
--- a/struct.go
+++ b/struct.go
@@ -350,7 +350,12 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 	typ := val.Type().Elem()
 	for i, sec := range secs {
 		elem := reflect.New(typ)
-		if err = sec.mapToField(elem, isStrict, i, sec.name); err != nil {
+		target := elem
+		if typ.Kind() == reflect.Ptr {
+			target = reflect.New(typ.Elem())
+			elem.Elem().Set(target)
+		}
+		if err = sec.mapToField(target, isStrict, i, sec.name); err != nil {
 			return reflect.Value{}, fmt.Errorf("map to field from section %q: %v", secName, err)
 		}
 
-- 
2.43.0


From 1478bbb9823c91e016d7d42e145589e41f6008c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 31/64] fix: skip nil pointers in a list of sections to reflect

---
 struct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/struct.go b/struct.go
index 8e8e9b3..3c7c0d9 100644
--- a/struct.go
+++ b/struct.go
@@ -640,6 +640,9 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 				if sliceOf != reflect.Struct && sliceOf != reflect.Ptr {
 					return fmt.Errorf("field %q is not a slice of pointer or struct", fieldName)
 				}
+				if sliceOf == reflect.Ptr && slice.Index(i).IsNil() {
+					continue
+				}
 
 				sec, err := s.f.NewSection(fieldName)
 				if err != nil {
@@ -703,6 +706,9 @@ func (s *Section) ReflectFrom(v interface{}) error {
 		}
 
 		for i := 0; i < slice.Len(); i++ {
+			if slice.Index(i).IsNil() {
+				continue
+			}
 			sec, err := s.f.NewSection(s.name)
 			if err != nil {
 				return err
-- 
2.43.0


From 119a2c97a5ffa8a059deef784fcb4a9d7ec5909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 32/64] fix: keep the comment of a key reflected with shadows

---
 struct.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/struct.go b/struct.go
index 3c7c0d9..9be0fbc 100644
--- a/struct.go
+++ b/struct.go
@@ -477,6 +477,7 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 				_ = keyWithShadows.AddShadow(val)
 			}
 		}
+		keyWithShadows.Comment = key.Comment
 		*key = *keyWithShadows
 		return nil
 	}
-- 
2.43.0


From 125b0f3a6b0a6db568505917c0f945465eb93f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 33/64] fix: reflect all values of an allowshadow field when
 shadows are not allowed

---
 struct.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 9be0fbc..de180ea 100644
--- a/struct.go
+++ b/struct.go
@@ -450,7 +450,8 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 	}
 	sliceOf := field.Type().Elem().Kind()
 
-	if allowShadow {
+	// Without shadows allowed, all values have to go into the key itself.
+	if allowShadow && key.s.f.options.AllowShadows {
 		var keyWithShadows *Key
 		for i := 0; i < field.Len(); i++ {
 			var val string
-- 
2.43.0


From 311190edc82fe8bc15178176f238239e3ead3faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 34/64] fix: reflecting an empty list or a nil pointer
 overwrites the existing value

---
 struct.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/struct.go b/struct.go
index de180ea..b2e084b 100644
--- a/struct.go
+++ b/struct.go
@@ -446,6 +446,10 @@ func StrictMapTo(v, source interface{}, others ...interface{}) error {
 func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow bool) error {
 	slice := field.Slice(0, field.Len())
 	if field.Len() == 0 {
+		key.SetValue("")
+		if allowShadow {
+			key.shadows = nil
+		}
 		return nil
 	}
 	sliceOf := field.Type().Elem().Kind()
@@ -528,6 +532,7 @@ func reflectWithProperType(t reflect.Type, key *Key, field reflect.Value, delim
 		if !field.IsNil() {
 			return reflectWithProperType(t.Elem(), key, field.Elem(), delim, allowShadow)
 		}
+		key.SetValue("")
 	default:
 		return fmt.Errorf("unsupported type %q", t)
 	}
-- 
2.43.0


From fe1e14db5f0feec05d863f384d197d8ac36ec6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 35/64] fix: do not take a not-exist error while reading for a
 nonexistent file

In loose mode only a data source that can not be opened because it does
not exist is ignored, a source that fails while it is read is an error.
---
 file.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/file.go b/file.go
index 32c5146..3daec36 100644
--- a/file.go
+++ b/file.go
@@ -302,28 +302,29 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 	return nil
 }
 
-func (f *File) reload(s dataSource) error {
+func (f *File) reload(s dataSource) (exists bool, err error) {
 	r, err := s.ReadCloser()
 	if err != nil {
-		return err
+		// In loose mode, we create an empty default section for nonexistent files.
+		if os.IsNotExist(err) && f.options.Loose {
+			_ = f.parse(bytes.NewBuffer(nil))
+			return false, nil
+		}
+		return false, err
 	}
 	defer r.Close()
 
-	return f.parse(r)
+	return true, f.parse(r)
 }
 
 // Reload reloads and parses all data sources.
 func (f *File) Reload() (err error) {
 	for _, s := range f.dataSources {
-		if err = f.reload(s); err != nil {
-			// In loose mode, we create an empty default section for nonexistent files.
-			if os.IsNotExist(err) && f.options.Loose {
-				_ = f.parse(bytes.NewBuffer(nil))
-				continue
-			}
+		exists, err := f.reload(s)
+		if err != nil {
 			return err
 		}
-		if f.options.ShortCircuit {
+		if exists && f.options.ShortCircuit {
 			return nil
 		}
 	}
-- 
2.43.0


From 96aec901d108e7791f54e9c6d31f5f7ea43262aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 36/64] fix: replace values of keys on reload when shadows are
 allowed

Reload and Append took the values left by the previous load for values
assigned before: changed content was added as a shadow, duplicate shadows
piled up when they are allowed, and boolean or auto-increment keys made
every reload fail.
---
 file.go    |  9 +++++----
 key.go     | 14 ++++++++++++++
 parser.go  | 10 +++++++---
 section.go | 19 +++++++++++++++++++
 4 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/file.go b/file.go
index 3daec36..148ee46 100644
--- a/file.go
+++ b/file.go
@@ -302,25 +302,26 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 	return nil
 }
 
-func (f *File) reload(s dataSource) (exists bool, err error) {
+func (f *File) reload(s dataSource, assigned map[*Key]bool) (exists bool, err error) {
 	r, err := s.ReadCloser()
 	if err != nil {
 		// In loose mode, we create an empty default section for nonexistent files.
 		if os.IsNotExist(err) && f.options.Loose {
-			_ = f.parse(bytes.NewBuffer(nil))
+			_ = f.parse(bytes.NewBuffer(nil), assigned)
 			return false, nil
 		}
 		return false, err
 	}
 	defer r.Close()
 
-	return true, f.parse(r)
+	return true, f.parse(r, assigned)
 }
 
 // Reload reloads and parses all data sources.
 func (f *File) Reload() (err error) {
+	assigned := make(map[*Key]bool)
 	for _, s := range f.dataSources {
-		exists, err := f.reload(s)
+		exists, err := f.reload(s, assigned)
 		if err != nil {
 			return err
 		}
diff --git a/key.go b/key.go
index 57f8c5f..cca84dd 100644
--- a/key.go
+++ b/key.go
@@ -919,3 +919,17 @@ func (k *Key) SetValue(v string) {
 
 	k.value = v
 }
+
+// resetValue changes key value and drops everything else assigned to the key
+// but nested values.
+func (k *Key) resetValue(v string) {
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
+
+	k.value = v
+	k.shadows = nil
+	k.isAutoIncrement = false
+	k.isBooleanType = false
+}
diff --git a/parser.go b/parser.go
index be5f6e3..bdb1ad7 100644
--- a/parser.go
+++ b/parser.go
@@ -345,7 +345,10 @@ func (p *parser) readPythonMultilines(line string) (string, error) {
 }
 
 // parse parses data through an io.Reader.
-func (f *File) parse(reader io.Reader) (err error) {
+//
+// The assigned collects keys that are assigned by the current load, which may
+// consist of several data sources.
+func (f *File) parse(reader io.Reader, assigned map[*Key]bool) (err error) {
 	p := newParser(reader, parserOptions{
 		IgnoreContinuation:          f.options.IgnoreContinuation,
 		IgnoreInlineComment:         f.options.IgnoreInlineComment,
@@ -476,10 +479,11 @@ func (f *File) parse(reader io.Reader) (err error) {
 					if err != nil {
 						return err
 					}
-					key, err := section.NewBooleanKey(kname)
+					key, err := section.assignKey(kname, "true", assigned)
 					if err != nil {
 						return err
 					}
+					key.isBooleanType = true
 					key.Comment = strings.TrimSpace(p.comment.String())
 					p.comment.Reset()
 					continue
@@ -507,7 +511,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 		}
 		isLastValueEmpty = len(value) == 0
 
-		key, err := section.NewKey(kname, value)
+		key, err := section.assignKey(kname, value, assigned)
 		if err != nil {
 			return err
 		}
diff --git a/section.go b/section.go
index 90cdf3f..d12f5c8 100644
--- a/section.go
+++ b/section.go
@@ -107,6 +107,25 @@ func (s *Section) newKey(name, val string, keepExisting bool) (*Key, error) {
 	return s.keys[name], nil
 }
 
+// assignKey creates the key or assigns the value to it. With shadows, what was
+// there before the current load is replaced and does not become a shadow.
+func (s *Section) assignKey(name, val string, assigned map[*Key]bool) (*Key, error) {
+	key, err := s.newKey(name, val, s.f.options.AllowShadows)
+	if err != nil {
+		return nil, err
+	}
+
+	if !s.f.options.AllowShadows {
+		return key, nil
+	} else if assigned[key] {
+		return s.NewKey(name, val)
+	}
+
+	assigned[key] = true
+	key.resetValue(val)
+	return key, nil
+}
+
 // NewBooleanKey creates a new boolean type key to given section.
 func (s *Section) NewBooleanKey(name string) (*Key, error) {
 	key, err := s.NewKey(name, "true")
-- 
2.43.0


From 79199b9a05dcf4845bc706666a3cf661e294cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 37/64] fix: replace types of keys on reload

A key that was written both with nested values and as a boolean key made
every reload fail, because it was still taken for a boolean key.
---
 section.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/section.go b/section.go
index d12f5c8..f9874f5 100644
--- a/section.go
+++ b/section.go
@@ -107,16 +107,13 @@ func (s *Section) newKey(name, val string, keepExisting bool) (*Key, error) {
 	return s.keys[name], nil
 }
 
-// assignKey creates the key or assigns the value to it. With shadows, what was
-// there before the current load is replaced and does not become a shadow.
+// assignKey creates the key or assigns the value to it. What was there before
+// the current load is replaced, it neither becomes a shadow nor decides on the
+// type of the key.
 func (s *Section) assignKey(name, val string, assigned map[*Key]bool) (*Key, error) {
-	key, err := s.newKey(name, val, s.f.options.AllowShadows)
+	key, err := s.newKey(name, val, true)
 	if err != nil {
 		return nil, err
-	}
-
-	if !s.f.options.AllowShadows {
-		return key, nil
 	} else if assigned[key] {
 		return s.NewKey(name, val)
 	}
-- 
2.43.0


From 58a31662da003281ba8f89e891aec0353119ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 38/64] fix: do not keep the space before an inline comment in
 the comment

With SpaceBeforeInlineComment, an inline comment that follows comment lines
kept its leading space, and was written back with another comment symbol.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index bdb1ad7..25f469f 100644
--- a/parser.go
+++ b/parser.go
@@ -290,7 +290,7 @@ func (p *parser) readValue(in []byte) (string, error) {
 		}
 
 		if i > -1 {
-			p.comment.WriteString(line[i:])
+			p.comment.WriteString(strings.TrimSpace(line[i:]))
 			line = strings.TrimSpace(line[:i])
 		}
 
-- 
2.43.0


From 877b97ddb31010dc023d63534ec41cec250bb3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 39/64] fix: put a blank line after raw sections without a
 final line break

The line break that ends the body was taken for the one between sections.
---
 file.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index 148ee46..aae5fbb 100644
--- a/file.go
+++ b/file.go
@@ -438,9 +438,17 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				return nil, err
 			}
 
+			if isLastSection {
+				continue
+			}
+
 			// The next header needs a line of its own
-			isBodyOpen := len(sec.rawBody) > 0 && !strings.HasSuffix(sec.rawBody, "\n")
-			if (PrettySection || isBodyOpen) && !isLastSection {
+			if len(sec.rawBody) > 0 && !strings.HasSuffix(sec.rawBody, "\n") {
+				if _, err := buf.WriteString(LineBreak); err != nil {
+					return nil, err
+				}
+			}
+			if PrettySection {
 				// Put a line between sections
 				if _, err := buf.WriteString(LineBreak); err != nil {
 					return nil, err
-- 
2.43.0


From e88fa176248d36bff4d3462f943aa26ad1ae1c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 40/64] fix: quote names of boolean keys like other names when
 written with value

The text changed when it was loaded and written again.
---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index aae5fbb..d53130a 100644
--- a/file.go
+++ b/file.go
@@ -383,8 +383,8 @@ func (f *File) needsKeyQuotes(key *Key) bool {
 		strings.IndexAny(key.name, "#;[") == 0 {
 		return true
 	}
-	// The parser reads the name of a boolean key as if it was a value
-	return key.isBooleanType &&
+	// The parser reads the name of a key without value as if it was a value
+	return key.isBooleanType && key.value == "true" &&
 		(!f.options.IgnoreInlineComment && strings.ContainsAny(key.name, "#;") || f.needsBackquotes(key.name))
 }
 
-- 
2.43.0


From 52797295c3ca9f4d61bae92340831e9e0cc04bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 41/64] fix: keep comments of keys with shadows when loading

The comment before the first value was dropped as soon as another value of
the key was read, so that it did not survive writing and loading.
---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 25f469f..80dd664 100644
--- a/parser.go
+++ b/parser.go
@@ -516,7 +516,11 @@ func (f *File) parse(reader io.Reader, assigned map[*Key]bool) (err error) {
 			return err
 		}
 		key.isAutoIncrement = isAutoIncr
-		key.Comment = strings.TrimSpace(p.comment.String())
+		// A shadow without comment leaves the one of the key
+		comment := strings.TrimSpace(p.comment.String())
+		if len(comment) > 0 || len(key.shadows) == 0 {
+			key.Comment = comment
+		}
 		p.comment.Reset()
 		lastRegularKey = key
 	}
-- 
2.43.0


From e66293e2fbb49e7821d619178aa071ecd153253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 42/64] fix: split comments at any line break when writing

A comment that was loaded or set with other line breaks than LineBreak was
written as a single line, and an empty comment line swallowed the next one.
---
 file.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index d53130a..ccc80bc 100644
--- a/file.go
+++ b/file.go
@@ -388,6 +388,13 @@ func (f *File) needsKeyQuotes(key *Key) bool {
 		(!f.options.IgnoreInlineComment && strings.ContainsAny(key.name, "#;") || f.needsBackquotes(key.name))
 }
 
+// commentLines splits a comment at line breaks, no matter whether it was loaded
+// with the same ones as those to be written.
+func commentLines(comment string) []string {
+	comment = strings.Replace(comment, LineBreak, "\n", -1)
+	return strings.Split(strings.Replace(comment, "\r\n", "\n", -1), "\n")
+}
+
 func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
 
@@ -407,7 +414,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		sec := f.sections[sname][f.sectionIndexes[i]]
 		if len(sec.Comment) > 0 {
 			// Support multiline comments
-			lines := strings.Split(sec.Comment, LineBreak)
+			lines := commentLines(sec.Comment)
 			for i := range lines {
 				if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 					lines[i] = "; " + lines[i]
@@ -487,7 +494,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				}
 
 				// Support multiline comments
-				lines := strings.Split(key.Comment, LineBreak)
+				lines := commentLines(key.Comment)
 				for i := range lines {
 					if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 						lines[i] = "; " + strings.TrimSpace(lines[i])
-- 
2.43.0


From a5379b6ea618d058187cc67940065dfb9bf97c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 43/64] fix: keep comments of keys whose shadow is written as a
 boolean key

---
 key.go    |  9 +++++++++
 parser.go | 10 ++--------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/key.go b/key.go
index cca84dd..0f0074a 100644
--- a/key.go
+++ b/key.go
@@ -933,3 +933,12 @@ func (k *Key) resetValue(v string) {
 	k.isAutoIncrement = false
 	k.isBooleanType = false
 }
+
+// assignComment takes the comment collected before the key or one of its
+// shadows. A shadow without a comment leaves the one of the key.
+func (k *Key) assignComment(comment *bytes.Buffer) {
+	if c := strings.TrimSpace(comment.String()); len(c) > 0 || len(k.shadows) == 0 {
+		k.Comment = c
+	}
+	comment.Reset()
+}
diff --git a/parser.go b/parser.go
index 80dd664..f6071e7 100644
--- a/parser.go
+++ b/parser.go
@@ -484,8 +484,7 @@ func (f *File) parse(reader io.Reader, assigned map[*Key]bool) (err error) {
 						return err
 					}
 					key.isBooleanType = true
-					key.Comment = strings.TrimSpace(p.comment.String())
-					p.comment.Reset()
+					key.assignComment(p.comment)
 					continue
 
 				case f.options.SkipUnrecognizableLines:
@@ -516,12 +515,7 @@ func (f *File) parse(reader io.Reader, assigned map[*Key]bool) (err error) {
 			return err
 		}
 		key.isAutoIncrement = isAutoIncr
-		// A shadow without comment leaves the one of the key
-		comment := strings.TrimSpace(p.comment.String())
-		if len(comment) > 0 || len(key.shadows) == 0 {
-			key.Comment = comment
-		}
-		p.comment.Reset()
+		key.assignComment(p.comment)
 		lastRegularKey = key
 	}
 	return nil
-- 
2.43.0


From 6a857a919cb39344ec666e2f5bfaf56fec98a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:21 +0000
Subject: [PATCH 44/64] fix: write every value of boolean keys with shadows

Writing stopped at the first value that is true.
---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index ccc80bc..b4f8b0e 100644
--- a/file.go
+++ b/file.go
@@ -384,7 +384,7 @@ func (f *File) needsKeyQuotes(key *Key) bool {
 		return true
 	}
 	// The parser reads the name of a key without value as if it was a value
-	return key.isBooleanType && key.value == "true" &&
+	return key.isBooleanType && key.value == "true" && len(key.shadows) == 0 &&
 		(!f.options.IgnoreInlineComment && strings.ContainsAny(key.name, "#;") || f.needsBackquotes(key.name))
 }
 
@@ -526,7 +526,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 					return false, err
 				}
 
-				if key.isBooleanType && val == "true" {
+				if key.isBooleanType && val == "true" && len(key.shadows) == 0 {
 					buf.WriteString(LineBreak)
 					return true, nil
 				}
-- 
2.43.0


From 8ff3b987fd225585433a4c42a91f8b357b4efa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 45/64] fix: refuse to delete a section with negative index

It removed nothing but renumbered the other sections, later calls panicked.
---
 file.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/file.go b/file.go
index b4f8b0e..a073ecc 100644
--- a/file.go
+++ b/file.go
@@ -255,6 +255,8 @@ func (f *File) DeleteSection(name string) {
 func (f *File) DeleteSectionWithIndex(name string, index int) error {
 	if !f.options.AllowNonUniqueSections && index != 0 {
 		return fmt.Errorf("delete section with non-zero index is only allowed when non-unique sections is enabled")
+	} else if index < 0 {
+		return fmt.Errorf("delete section with negative index: %d", index)
 	}
 
 	if len(name) == 0 {
-- 
2.43.0


From adf8bb48938d5bac1f2e04f6f2ecb557411e4a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 46/64] fix: do not share the list of unparseable sections with
 the caller

---
 file.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/file.go b/file.go
index a073ecc..645f5d7 100644
--- a/file.go
+++ b/file.go
@@ -58,6 +58,8 @@ func newFile(dataSources []dataSource, opts LoadOptions) *File {
 	if len(opts.ChildSectionDelimiter) == 0 {
 		opts.ChildSectionDelimiter = "."
 	}
+	// The list belongs to the caller, who may change it before the next reload.
+	opts.UnparseableSections = append([]string(nil), opts.UnparseableSections...)
 
 	return &File{
 		BlockMode:   true,
-- 
2.43.0


From 1c67035b5f5ec6a451b36d406e6a0069c06a965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:54 +0000
Subject: [PATCH 47/64] fix: compare times beyond whole seconds in
 RangeTimeFormat

---
 key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 0f0074a..035333b 100644
--- a/key.go
+++ b/key.go
@@ -555,7 +555,7 @@ func (k *Key) RangeTimeFormat(format string, defaultVal, min, max time.Time) tim
 	if err != nil {
 		return defaultVal
 	}
-	if val.Unix() < min.Unix() || val.Unix() > max.Unix() {
+	if val.Before(min) || val.After(max) {
 		return defaultVal
 	}
 	return val
-- 
2.43.0


From d08ccedc78f7a9e7b8a8d1c4ff7eee37767d4a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 48/64] fix: NaN is not in any range

---
 key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 035333b..f93d17c 100644
--- a/key.go
+++ b/key.go
@@ -516,7 +516,8 @@ func (k *Key) RangeFloat64(defaultVal, min, max float64) float64 {
 	if err != nil {
 		return defaultVal
 	}
-	if val < min || val > max {
+	// The other way around NaN would count as being in range
+	if !(val >= min && val <= max) {
 		return defaultVal
 	}
 	return val
-- 
2.43.0


From 41e82bc6e0011f9e0372ce4da1b0b01ddda8cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:50 +0000
Subject: [PATCH 49/64] fix: map zero durations like any other value

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index b2e084b..c42a85d 100644
--- a/struct.go
+++ b/struct.go
@@ -191,7 +191,7 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 					return wrapStrictError(err, isStrict)
 				}
 				target.SetInt(intVal)
-			} else if isPtr || int64(durationVal) != 0 {
+			} else {
 				target.SetInt(int64(durationVal))
 			}
 			break
-- 
2.43.0


From 2dea87aeef8d769289f730dd8fe0b4999c941037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 50/64] fix: leave embedded pointers alone when there is
 nothing to map to them

---
 struct.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/struct.go b/struct.go
index c42a85d..a90f952 100644
--- a/struct.go
+++ b/struct.go
@@ -282,11 +282,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 
 		isStruct := tpField.Type.Kind() == reflect.Struct
 		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
-		isAnonymousPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Anonymous
-		if isAnonymousPtr {
-			field.Set(reflect.New(tpField.Type.Elem()))
-		}
-
+		isAnonymousPtr := isStructPtr && tpField.Anonymous
 		if extends && (isAnonymousPtr || (isStruct && tpField.Anonymous)) {
 			if isStructPtr && field.IsNil() {
 				field.Set(reflect.New(tpField.Type.Elem()))
@@ -301,7 +297,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 			if err := fieldSection.mapToField(field, isStrict, sectionIndex, sectionName); err != nil {
 				return fmt.Errorf("map to field %q: %v", fieldName, err)
 			}
-		} else if isAnonymousPtr || isStruct || isStructPtr {
+		} else if isStruct || isStructPtr {
 			if secs, err := s.f.SectionsByName(fieldName); err == nil {
 				if len(secs) <= sectionIndex {
 					return fmt.Errorf("there are not enough sections (%d <= %d) for the field %q", len(secs), sectionIndex, fieldName)
-- 
2.43.0


From 19bddeb20fd1e5df05e29d5689a22a4526cc5405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 51/64] fix: a list of non-unique sections without any section
 is no error

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index a90f952..73c0996 100644
--- a/struct.go
+++ b/struct.go
@@ -316,6 +316,9 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 
 		// Map non-unique sections
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
+			if !s.f.HasSection(fieldName) {
+				continue
+			}
 			newField, err := s.mapToSlice(fieldName, field, isStrict)
 			if err != nil {
 				return fmt.Errorf("map to slice %q: %v", fieldName, err)
-- 
2.43.0


From 37937aeaa34f8cc3d4a2bf17bcfe2ff12e343772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 52/64] fix: refuse targets that are no structs instead of
 panicking

---
 struct.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/struct.go b/struct.go
index 73c0996..1615ad4 100644
--- a/struct.go
+++ b/struct.go
@@ -263,6 +263,9 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
+	if val.Kind() != reflect.Struct {
+		return errors.New("not a pointer to a struct")
+	}
 	typ := val.Type()
 
 	for i := 0; i < typ.NumField(); i++ {
@@ -365,16 +368,14 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 
 // mapTo maps a section to object v.
 func (s *Section) mapTo(v interface{}, isStrict bool) error {
-	typ := reflect.TypeOf(v)
 	val := reflect.ValueOf(v)
-	if typ.Kind() == reflect.Ptr {
-		typ = typ.Elem()
+	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	} else {
 		return errors.New("not a pointer to a struct")
 	}
 
-	if typ.Kind() == reflect.Slice {
+	if val.Kind() == reflect.Slice {
 		newField, err := s.mapToSlice(s.name, val, isStrict)
 		if err != nil {
 			return err
@@ -570,6 +571,9 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
+	if val.Kind() != reflect.Struct {
+		return errors.New("not a pointer to a struct")
+	}
 	typ := val.Type()
 
 	for i := 0; i < typ.NumField(); i++ {
@@ -689,15 +693,17 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 
 // ReflectFrom reflects section from given struct. It overwrites existing ones.
 func (s *Section) ReflectFrom(v interface{}) error {
-	typ := reflect.TypeOf(v)
 	val := reflect.ValueOf(v)
+	if val.Kind() == reflect.Ptr && reflect.Indirect(val.Elem()).Kind() != reflect.Struct {
+		return errors.New("not a pointer to a struct")
+	}
 
 	if s.name != DefaultSection && s.f.options.AllowNonUniqueSections &&
-		(typ.Kind() == reflect.Slice || typ.Kind() == reflect.Ptr) {
+		(val.Kind() == reflect.Slice || val.Kind() == reflect.Ptr) {
 		// Clear sections to make sure none exists before adding the new ones
 		s.f.DeleteSection(s.name)
 
-		if typ.Kind() == reflect.Ptr {
+		if val.Kind() == reflect.Ptr {
 			sec, err := s.f.NewSection(s.name)
 			if err != nil {
 				return err
@@ -729,7 +735,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 		return nil
 	}
 
-	if typ.Kind() == reflect.Ptr {
+	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	} else {
 		return errors.New("not a pointer to a struct")
-- 
2.43.0


From 310c200ef596679efeb56b01e32664b2f42a5591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 53/64] fix: end the mapping of recursive types instead of
 overflowing the stack

---
 struct.go | 53 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/struct.go b/struct.go
index 1615ad4..e8c13f5 100644
--- a/struct.go
+++ b/struct.go
@@ -257,9 +257,29 @@ func parseTagOptions(tag string) (rawName string, omitEmpty bool, allowShadow bo
 	return rawName, omitEmpty, allowShadow, allowNonUnique, extends
 }
 
+// mapping is a section that is being mapped to a struct type, outer is the one that led to it.
+type mapping struct {
+	secName string
+	typ     reflect.Type
+	outer   *mapping
+}
+
+// includes returns true if sections with the name are already being mapped to the type (or to what it points to).
+func (m *mapping) includes(secName string, typ reflect.Type) bool {
+	if typ.Kind() == reflect.Ptr {
+		typ = typ.Elem()
+	}
+	for ; m != nil; m = m.outer {
+		if m.secName == secName && m.typ == typ {
+			return true
+		}
+	}
+	return false
+}
+
 // mapToField maps the given value to the matching field of the given section.
 // The sectionIndex is the index (if non unique sections are enabled) to which the value should be added.
-func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int, sectionName string) error {
+func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int, sectionName string, outer *mapping) error {
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
@@ -267,6 +287,8 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 		return errors.New("not a pointer to a struct")
 	}
 	typ := val.Type()
+	// The fields of recursive types end where they would be mapped to the same sections again.
+	current := &mapping{secName: s.name, typ: typ, outer: outer}
 
 	for i := 0; i < typ.NumField(); i++ {
 		field := val.Field(i)
@@ -287,9 +309,6 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
 		isAnonymousPtr := isStructPtr && tpField.Anonymous
 		if extends && (isAnonymousPtr || (isStruct && tpField.Anonymous)) {
-			if isStructPtr && field.IsNil() {
-				field.Set(reflect.New(tpField.Type.Elem()))
-			}
 			fieldSection := s
 			if rawName != "" {
 				sectionName = s.name + s.f.options.ChildSectionDelimiter + rawName
@@ -297,7 +316,13 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 					fieldSection = secs[sectionIndex]
 				}
 			}
-			if err := fieldSection.mapToField(field, isStrict, sectionIndex, sectionName); err != nil {
+			if current.includes(fieldSection.name, tpField.Type) {
+				continue
+			}
+			if isStructPtr && field.IsNil() {
+				field.Set(reflect.New(tpField.Type.Elem()))
+			}
+			if err := fieldSection.mapToField(field, isStrict, sectionIndex, sectionName, current); err != nil {
 				return fmt.Errorf("map to field %q: %v", fieldName, err)
 			}
 		} else if isStruct || isStructPtr {
@@ -305,12 +330,15 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 				if len(secs) <= sectionIndex {
 					return fmt.Errorf("there are not enough sections (%d <= %d) for the field %q", len(secs), sectionIndex, fieldName)
 				}
+				if current.includes(secs[sectionIndex].name, tpField.Type) {
+					continue
+				}
 				// Only set the field to non-nil struct value if we have a section for it.
 				// Otherwise, we end up with a non-nil struct ptr even though there is no data.
 				if isStructPtr && field.IsNil() {
 					field.Set(reflect.New(tpField.Type.Elem()))
 				}
-				if err = secs[sectionIndex].mapToField(field, isStrict, sectionIndex, fieldName); err != nil {
+				if err = secs[sectionIndex].mapToField(field, isStrict, sectionIndex, fieldName, current); err != nil {
 					return fmt.Errorf("map to field %q: %v", fieldName, err)
 				}
 				continue
@@ -322,7 +350,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 			if !s.f.HasSection(fieldName) {
 				continue
 			}
-			newField, err := s.mapToSlice(fieldName, field, isStrict)
+			newField, err := s.mapToSlice(fieldName, field, isStrict, current)
 			if err != nil {
 				return fmt.Errorf("map to slice %q: %v", fieldName, err)
 			}
@@ -343,13 +371,16 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 
 // mapToSlice maps all sections with the same name and returns the new value.
 // The type of the Value must be a slice.
-func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (reflect.Value, error) {
+func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool, outer *mapping) (reflect.Value, error) {
 	secs, err := s.f.SectionsByName(secName)
 	if err != nil {
 		return reflect.Value{}, err
 	}
 
 	typ := val.Type().Elem()
+	if outer.includes(secs[0].name, typ) {
+		return val, nil
+	}
 	for i, sec := range secs {
 		elem := reflect.New(typ)
 		target := elem
@@ -357,7 +388,7 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 			target = reflect.New(typ.Elem())
 			elem.Elem().Set(target)
 		}
-		if err = sec.mapToField(target, isStrict, i, sec.name); err != nil {
+		if err = sec.mapToField(target, isStrict, i, sec.name, outer); err != nil {
 			return reflect.Value{}, fmt.Errorf("map to field from section %q: %v", secName, err)
 		}
 
@@ -376,7 +407,7 @@ func (s *Section) mapTo(v interface{}, isStrict bool) error {
 	}
 
 	if val.Kind() == reflect.Slice {
-		newField, err := s.mapToSlice(s.name, val, isStrict)
+		newField, err := s.mapToSlice(s.name, val, isStrict, nil)
 		if err != nil {
 			return err
 		}
@@ -385,7 +416,7 @@ func (s *Section) mapTo(v interface{}, isStrict bool) error {
 		return nil
 	}
 
-	return s.mapToField(val, isStrict, 0, s.name)
+	return s.mapToField(val, isStrict, 0, s.name, nil)
 }
 
 // MapTo maps section to given struct.
-- 
2.43.0


From f3b6f5010f07a7f2a37815811bc84078d4183a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 54/64] fix: refuse to reflect values that contain themselves
 instead of overflowing the stack

---
 struct.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index e8c13f5..b94515a 100644
--- a/struct.go
+++ b/struct.go
@@ -598,7 +598,13 @@ type StructReflector interface {
 	ReflectINIStruct(*File) error
 }
 
-func (s *Section) reflectFrom(val reflect.Value) error {
+// reflection is a struct that is being reflected, outer is the one that led to it.
+type reflection struct {
+	val   interface{}
+	outer *reflection
+}
+
+func (s *Section) reflectFrom(val reflect.Value, outer *reflection) error {
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
@@ -607,6 +613,13 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 	}
 	typ := val.Type()
 
+	current := &reflection{val: val.Addr().Interface(), outer: outer}
+	for r := outer; r != nil; r = r.outer {
+		if r.val == current.val {
+			return fmt.Errorf("value of type %q contains itself", typ)
+		}
+	}
+
 	for i := 0; i < typ.NumField(); i++ {
 		if !val.Field(i).CanInterface() {
 			continue
@@ -644,7 +657,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		if extends && tpField.Anonymous && (tpField.Type.Kind() == reflect.Ptr || tpField.Type.Kind() == reflect.Struct) {
-			if err := s.reflectFrom(field); err != nil {
+			if err := s.reflectFrom(field, current); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 			}
 			continue
@@ -664,7 +677,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 				sec.Comment = tpField.Tag.Get("comment")
 			}
 
-			if err = sec.reflectFrom(field); err != nil {
+			if err = sec.reflectFrom(field, current); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 			}
 			continue
@@ -695,7 +708,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 					sec.Comment = tpField.Tag.Get("comment")
 				}
 
-				if err := sec.reflectFrom(slice.Index(i)); err != nil {
+				if err := sec.reflectFrom(slice.Index(i), current); err != nil {
 					return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 				}
 			}
@@ -739,7 +752,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 			if err != nil {
 				return err
 			}
-			return sec.reflectFrom(val.Elem())
+			return sec.reflectFrom(val.Elem(), nil)
 		}
 
 		slice := val.Slice(0, val.Len())
@@ -757,7 +770,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 				return err
 			}
 
-			err = sec.reflectFrom(slice.Index(i))
+			err = sec.reflectFrom(slice.Index(i), nil)
 			if err != nil {
 				return fmt.Errorf("reflect from %dth field: %v", i, err)
 			}
@@ -772,7 +785,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 		return errors.New("not a pointer to a struct")
 	}
 
-	return s.reflectFrom(val)
+	return s.reflectFrom(val, nil)
 }
 
 // ReflectFrom reflects file from given struct.
-- 
2.43.0


From 5415f9fdb6cc7907ca7c8ae3d37e249448afd3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 55/64] fix: reflecting lists of structs that are no times
 gives an error

reflectSliceWithProperType and reflectWithProperType asserted that every
struct is a time.Time, so ReflectFrom panicked on fields like []S and **S.
Return the unsupported type error, and write types defined by time.Time,
which mapping already supports, as times.
---
 struct.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index b94515a..2848f34 100644
--- a/struct.go
+++ b/struct.go
@@ -473,6 +473,14 @@ func StrictMapTo(v, source interface{}, others ...interface{}) error {
 	return StrictMapToWithMapper(v, nil, source, others...)
 }
 
+// timeOf returns the time v holds if its type is time.Time or defined by it.
+func timeOf(v reflect.Value) (time.Time, bool) {
+	if !v.Type().ConvertibleTo(reflectTimeType) {
+		return time.Time{}, false
+	}
+	return v.Convert(reflectTimeType).Interface().(time.Time), true
+}
+
 // reflectSliceWithProperType does the opposite thing as setSliceWithProperType.
 func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow bool) error {
 	slice := field.Slice(0, field.Len())
@@ -502,7 +510,11 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 			case reflect.Bool:
 				val = fmt.Sprint(slice.Index(i).Bool())
 			case reflectTime:
-				val = slice.Index(i).Interface().(time.Time).Format(time.RFC3339)
+				t, ok := timeOf(slice.Index(i))
+				if !ok {
+					return fmt.Errorf("unsupported type '%s'", field.Type())
+				}
+				val = t.Format(time.RFC3339)
 			default:
 				return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 			}
@@ -532,7 +544,11 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 		case reflect.Bool:
 			buf.WriteString(fmt.Sprint(slice.Index(i).Bool()))
 		case reflectTime:
-			buf.WriteString(slice.Index(i).Interface().(time.Time).Format(time.RFC3339))
+			t, ok := timeOf(slice.Index(i))
+			if !ok {
+				return fmt.Errorf("unsupported type '%s'", field.Type())
+			}
+			buf.WriteString(t.Format(time.RFC3339))
 		default:
 			return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 		}
@@ -556,7 +572,11 @@ func reflectWithProperType(t reflect.Type, key *Key, field reflect.Value, delim
 	case reflect.Float32, reflect.Float64:
 		key.SetValue(fmt.Sprint(field.Float()))
 	case reflectTime:
-		key.SetValue(fmt.Sprint(field.Interface().(time.Time).Format(time.RFC3339)))
+		t, ok := timeOf(field)
+		if !ok {
+			return fmt.Errorf("unsupported type %q", field.Type())
+		}
+		key.SetValue(t.Format(time.RFC3339))
 	case reflect.Slice:
 		return reflectSliceWithProperType(key, field, delim, allowShadow)
 	case reflect.Ptr:
-- 
2.43.0


From 36c4a8584c4bdb3ee3791fb158c712ca9a7c104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:27 +0000
Subject: [PATCH 56/64] fix: don't call ReflectINIStruct of nil pointers

Nil struct pointers are left out when reflecting, also when their type
implements StructReflector, whose methods usually dereference them.
---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index 2848f34..c1844d2 100644
--- a/struct.go
+++ b/struct.go
@@ -659,6 +659,9 @@ func (s *Section) reflectFrom(val reflect.Value, outer *reflection) error {
 		}
 
 		if r, ok := field.Interface().(StructReflector); ok {
+			if field.Kind() == reflect.Ptr && field.IsNil() {
+				continue
+			}
 			if err := r.ReflectINIStruct(s.f); err != nil {
 				return err
 			}
-- 
2.43.0


From 3ae4d44f202244e439130b210c1b3a1f7b96a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:33 +0000
Subject: [PATCH 57/64] fix: reflect into the section's own keys

ReflectFrom looked keys up in parent sections, too, so reflecting a struct
into a child section overwrote keys of the same name in its parents
instead of adding them to the child section.
---
 struct.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/struct.go b/struct.go
index c1844d2..94ee5dd 100644
--- a/struct.go
+++ b/struct.go
@@ -738,11 +738,8 @@ func (s *Section) reflectFrom(val reflect.Value, outer *reflection) error {
 			continue
 		}
 
-		// Note: Same reason as section.
-		key, err := s.GetKey(fieldName)
-		if err != nil {
-			key, _ = s.NewKey(fieldName, "")
-		}
+		// Note: Only the section's own key will do, and fieldName can never be empty here, ignore error.
+		key, _ := s.newKey(fieldName, "", true)
 
 		// Add comment from comment tag
 		if len(key.Comment) == 0 {
@@ -750,7 +747,7 @@ func (s *Section) reflectFrom(val reflect.Value, outer *reflection) error {
 		}
 
 		delim := parseDelim(tpField.Tag.Get("delim"))
-		if err = reflectWithProperType(tpField.Type, key, field, delim, allowShadow); err != nil {
+		if err := reflectWithProperType(tpField.Type, key, field, delim, allowShadow); err != nil {
 			return fmt.Errorf("reflect field %q: %v", fieldName, err)
 		}
 
-- 
2.43.0


From f494658143b68ddf94e7fea7cdd082728b26de34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:54 +0000
Subject: [PATCH 58/64] fix: mapping a file does not create its default section

File.MapTo added an empty default section to files that have none, so
mapping changed the file.
---
 struct.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 94ee5dd..3d61bae 100644
--- a/struct.go
+++ b/struct.go
@@ -430,15 +430,25 @@ func (s *Section) StrictMapTo(v interface{}) error {
 	return s.mapTo(v, true)
 }
 
+// mapTo maps the default section to object v.
+func (f *File) mapTo(v interface{}, isStrict bool) error {
+	sec, err := f.GetSection("")
+	if err != nil {
+		// Note: Mapping does not add the section to the file.
+		sec = newSection(f, DefaultSection)
+	}
+	return sec.mapTo(v, isStrict)
+}
+
 // MapTo maps file to given struct.
 func (f *File) MapTo(v interface{}) error {
-	return f.Section("").MapTo(v)
+	return f.mapTo(v, false)
 }
 
 // StrictMapTo maps file to given struct in strict mode,
 // which returns all possible error including value parsing error.
 func (f *File) StrictMapTo(v interface{}) error {
-	return f.Section("").StrictMapTo(v)
+	return f.mapTo(v, true)
 }
 
 // MapToWithMapper maps data sources to given struct with name mapper.
-- 
2.43.0


From af084f8aacdd85a78daa4941efaf62f433735b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:24 +0000
Subject: [PATCH 59/64] fix: reflect types defined by time.Time as times

Mapping converts keys to such types, but reflecting stored an empty
section for them, so the value was lost and mapping back found the section.
---
 struct.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 3d61bae..789fd5e 100644
--- a/struct.go
+++ b/struct.go
@@ -617,7 +617,7 @@ func isEmptyValue(v reflect.Value) bool {
 	case reflect.Interface, reflect.Ptr:
 		return v.IsNil()
 	case reflectTime:
-		t, ok := v.Interface().(time.Time)
+		t, ok := timeOf(v)
 		return ok && t.IsZero()
 	}
 	return false
@@ -684,7 +684,7 @@ func (s *Section) reflectFrom(val reflect.Value, outer *reflection) error {
 		}
 
 		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct &&
-			tpField.Type.Elem() != reflectTimeType
+			!reflectTimeType.ConvertibleTo(tpField.Type.Elem())
 		if isStructPtr && field.IsNil() {
 			continue
 		}
@@ -697,7 +697,7 @@ func (s *Section) reflectFrom(val reflect.Value, outer *reflection) error {
 		}
 
 		if isStructPtr ||
-			(tpField.Type.Kind() == reflect.Struct && tpField.Type != reflectTimeType) {
+			(tpField.Type.Kind() == reflect.Struct && !reflectTimeType.ConvertibleTo(tpField.Type)) {
 			// Note: The only error here is section doesn't exist.
 			sec, err := s.f.GetSection(fieldName)
 			if err != nil {
-- 
2.43.0


From 71a0e7d1ef81390008fe7beffcdfc2bdfdf3b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 60/64] fix: tell the default section by its name under the
 options

With insensitive section names the default section is named in lower case,
so its keys were indented by WriteToIndent. Without them a first section
named like it in another case is not the default section, but was written
without its header, so its keys ended up in the default section.
---
 file.go    | 6 +++---
 section.go | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/file.go b/file.go
index 645f5d7..21533de 100644
--- a/file.go
+++ b/file.go
@@ -432,7 +432,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			}
 		}
 
-		if i > 0 || DefaultHeader || (i == 0 && strings.ToUpper(sec.name) != DefaultSection) {
+		if i > 0 || DefaultHeader || (i == 0 && !sec.isDefault()) {
 			if _, err := buf.WriteString("[" + sname + "]" + LineBreak); err != nil {
 				return nil, err
 			}
@@ -493,7 +493,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		for _, kname := range sec.keyList {
 			key := sec.keys[kname]
 			if len(key.Comment) > 0 {
-				if len(indent) > 0 && sname != DefaultSection {
+				if len(indent) > 0 && !sec.isDefault() {
 					buf.WriteString(indent)
 				}
 
@@ -512,7 +512,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				}
 			}
 
-			if len(indent) > 0 && sname != DefaultSection {
+			if len(indent) > 0 && !sec.isDefault() {
 				buf.WriteString(indent)
 			}
 
diff --git a/section.go b/section.go
index f9874f5..556cf7a 100644
--- a/section.go
+++ b/section.go
@@ -41,6 +41,15 @@ func newSection(f *File, name string) *Section {
 	}
 }
 
+// isDefault returns true if it is the default section, which has a lower-case
+// name when section names are insensitive.
+func (s *Section) isDefault() bool {
+	if s.f.options.Insensitive || s.f.options.InsensitiveSections {
+		return s.name == strings.ToLower(DefaultSection)
+	}
+	return s.name == DefaultSection
+}
+
 // Name returns name of Section.
 func (s *Section) Name() string {
 	return s.name
-- 
2.43.0


From 955376191ff4907bc2fc2da9eb4d7a3d61d9dd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:00 +0000
Subject: [PATCH 61/64] fix: reflect into the default section if its name is in
 lower case

With insensitive and non-unique sections ReflectFrom took the default
section for a named one, deleted it and added a new one at the end.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 789fd5e..1966a31 100644
--- a/struct.go
+++ b/struct.go
@@ -772,7 +772,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 		return errors.New("not a pointer to a struct")
 	}
 
-	if s.name != DefaultSection && s.f.options.AllowNonUniqueSections &&
+	if !s.isDefault() && s.f.options.AllowNonUniqueSections &&
 		(val.Kind() == reflect.Slice || val.Kind() == reflect.Ptr) {
 		// Clear sections to make sure none exists before adding the new ones
 		s.f.DeleteSection(s.name)
-- 
2.43.0


From 2af94c296356173650cc9c2a95e123f24ce39cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:30 +0000
Subject: [PATCH 62/64] fix: look up, create and delete sections in one step

---
 file.go | 82 +++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 57 insertions(+), 25 deletions(-)

diff --git a/file.go b/file.go
index 21533de..12a9883 100644
--- a/file.go
+++ b/file.go
@@ -96,8 +96,14 @@ func (f *File) NewSection(name string) (*Section, error) {
 		defer f.lock.Unlock()
 	}
 
+	return f.newSection(name), nil
+}
+
+// newSection creates a new section without locking, the name must be in the
+// form it is stored.
+func (f *File) newSection(name string) *Section {
 	if !f.options.AllowNonUniqueSections && inSlice(name, f.sectionList) {
-		return f.sections[name][0], nil
+		return f.sections[name][0]
 	}
 
 	f.sectionList = append(f.sectionList, name)
@@ -109,14 +115,17 @@ func (f *File) NewSection(name string) (*Section, error) {
 	sec := newSection(f, name)
 	f.sections[name] = append(f.sections[name], sec)
 
-	return sec, nil
+	return sec
 }
 
 // NewRawSection creates a new section with an unparseable body.
 func (f *File) NewRawSection(name, body string) (*Section, error) {
-	section, err := f.NewSection(name)
-	if err != nil {
-		return nil, err
+	if len(name) == 0 {
+		return nil, errors.New("empty section name")
+	}
+
+	if f.options.Insensitive || f.options.InsensitiveSections {
+		name = strings.ToLower(name)
 	}
 
 	if f.BlockMode {
@@ -124,6 +133,7 @@ func (f *File) NewRawSection(name, body string) (*Section, error) {
 		defer f.lock.Unlock()
 	}
 
+	section := f.newSection(name)
 	section.isRawSection = true
 	section.rawBody = body
 	return section, nil
@@ -182,11 +192,7 @@ func (f *File) SectionsByName(name string) ([]*Section, error) {
 func (f *File) Section(name string) *Section {
 	sec, err := f.GetSection(name)
 	if err != nil {
-		if name == "" {
-			name = DefaultSection
-		}
-		sec, _ = f.NewSection(name)
-		return sec
+		return f.sectionWithIndex(name, 0)
 	}
 	return sec
 }
@@ -195,18 +201,33 @@ func (f *File) Section(name string) *Section {
 func (f *File) SectionWithIndex(name string, index int) *Section {
 	secs, err := f.SectionsByName(name)
 	if err != nil || len(secs) <= index {
-		if name == "" {
-			name = DefaultSection
-		}
-		// NOTE: It's OK here because the only possible error is empty section name,
-		// but if it's empty, this piece of code won't be executed.
-		newSec, _ := f.NewSection(name)
-		return newSec
+		return f.sectionWithIndex(name, index)
 	}
 
 	return secs[index]
 }
 
+// sectionWithIndex returns the section or creates one when it does not exist,
+// others may have created it in the meantime.
+func (f *File) sectionWithIndex(name string, index int) *Section {
+	if len(name) == 0 {
+		name = DefaultSection
+	}
+	if f.options.Insensitive || f.options.InsensitiveSections {
+		name = strings.ToLower(name)
+	}
+
+	if f.BlockMode {
+		f.lock.Lock()
+		defer f.lock.Unlock()
+	}
+
+	if secs := f.sections[name]; len(secs) > index {
+		return secs[index]
+	}
+	return f.newSection(name)
+}
+
 // Sections returns a list of Section stored in the current instance.
 func (f *File) Sections() []*Section {
 	if f.BlockMode {
@@ -240,16 +261,22 @@ func (f *File) SectionStrings() []string {
 
 // DeleteSection deletes a section or all sections with given name.
 func (f *File) DeleteSection(name string) {
-	secs, err := f.SectionsByName(name)
-	if err != nil {
-		return
+	if len(name) == 0 {
+		name = DefaultSection
+	}
+	if f.options.Insensitive || f.options.InsensitiveSections {
+		name = strings.ToLower(name)
+	}
+
+	if f.BlockMode {
+		f.lock.Lock()
+		defer f.lock.Unlock()
 	}
 
-	for i := 0; i < len(secs); i++ {
+	for i := len(f.sections[name]); i > 0; i-- {
 		// For non-unique sections, it is always needed to remove the first one so
 		// in the next iteration, the subsequent section continue having index 0.
-		// Ignoring the error as index 0 never returns an error.
-		_ = f.DeleteSectionWithIndex(name, 0)
+		f.deleteSectionWithIndex(name, 0)
 	}
 }
 
@@ -273,6 +300,13 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 		defer f.lock.Unlock()
 	}
 
+	f.deleteSectionWithIndex(name, index)
+	return nil
+}
+
+// deleteSectionWithIndex deletes a section without locking, the name must be in
+// the form it is stored.
+func (f *File) deleteSectionWithIndex(name string, index int) {
 	// Count occurrences of the sections
 	occurrences := 0
 
@@ -302,8 +336,6 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 
 		occurrences++
 	}
-
-	return nil
 }
 
 func (f *File) reload(s dataSource, assigned map[*Key]bool) (exists bool, err error) {
-- 
2.43.0


From ebc5c3c004d23ffb405599bb9fbc108a31252130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 63/64] fix: look up, create and flag keys in one step

---
 file.go    | 25 ++++++++++-----
 section.go | 92 +++++++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 87 insertions(+), 30 deletions(-)

diff --git a/file.go b/file.go
index 12a9883..bf92b86 100644
--- a/file.go
+++ b/file.go
@@ -167,6 +167,22 @@ func (f *File) HasSection(name string) bool {
 
 // SectionsByName returns all sections with given name.
 func (f *File) SectionsByName(name string) ([]*Section, error) {
+	if f.BlockMode {
+		f.lock.RLock()
+		defer f.lock.RUnlock()
+	}
+
+	secs, err := f.sectionsByName(name)
+	if err != nil {
+		return nil, err
+	}
+
+	// Hand out a copy, the underlying list changes when sections are deleted.
+	return append([]*Section(nil), secs...), nil
+}
+
+// sectionsByName returns the underlying list of sections without locking.
+func (f *File) sectionsByName(name string) ([]*Section, error) {
 	if len(name) == 0 {
 		name = DefaultSection
 	}
@@ -174,18 +190,11 @@ func (f *File) SectionsByName(name string) ([]*Section, error) {
 		name = strings.ToLower(name)
 	}
 
-	if f.BlockMode {
-		f.lock.RLock()
-		defer f.lock.RUnlock()
-	}
-
 	secs := f.sections[name]
 	if len(secs) == 0 {
 		return nil, fmt.Errorf("section %q does not exist", name)
 	}
-
-	// Hand out a copy, the underlying list changes when sections are deleted.
-	return append([]*Section(nil), secs...), nil
+	return secs, nil
 }
 
 // Section assumes named section exists and returns a zero-value when not.
diff --git a/section.go b/section.go
index 556cf7a..09d7a79 100644
--- a/section.go
+++ b/section.go
@@ -97,6 +97,11 @@ func (s *Section) newKey(name, val string, keepExisting bool) (*Key, error) {
 		defer s.f.lock.Unlock()
 	}
 
+	return s.setKey(name, val, keepExisting)
+}
+
+// setKey is newKey without locking, the name must be in the form it is stored.
+func (s *Section) setKey(name, val string, keepExisting bool) (*Key, error) {
 	if inSlice(name, s.keyList) {
 		if keepExisting {
 			return s.keys[name], nil
@@ -134,9 +139,10 @@ func (s *Section) assignKey(name, val string, assigned map[*Key]bool) (*Key, err
 
 // NewBooleanKey creates a new boolean type key to given section.
 func (s *Section) NewBooleanKey(name string) (*Key, error) {
-	key, err := s.NewKey(name, "true")
-	if err != nil {
-		return nil, err
+	if len(name) == 0 {
+		return nil, errors.New("error creating new key: empty key name")
+	} else if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
+		name = strings.ToLower(name)
 	}
 
 	if s.f.BlockMode {
@@ -144,42 +150,58 @@ func (s *Section) NewBooleanKey(name string) (*Key, error) {
 		defer s.f.lock.Unlock()
 	}
 
+	key, err := s.setKey(name, "true", false)
+	if err != nil {
+		return nil, err
+	}
+
 	key.isBooleanType = true
 	return key, nil
 }
 
 // GetKey returns key in section by given name.
 func (s *Section) GetKey(name string) (*Key, error) {
-	if s.f.BlockMode {
-		s.f.lock.RLock()
-	}
 	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
 		name = strings.ToLower(name)
 	}
-	key := s.keys[name]
+
 	if s.f.BlockMode {
-		s.f.lock.RUnlock()
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
 	}
 
+	return s.getKey(name)
+}
+
+// getKey is GetKey without locking, the name must be in the form it is stored.
+func (s *Section) getKey(name string) (*Key, error) {
+	key := s.keys[name]
 	if key == nil {
 		// Check if it is a child-section.
-		sname := s.name
-		for {
-			if i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter); i > -1 {
-				sname = sname[:i]
-				sec, err := s.f.GetSection(sname)
-				if err != nil {
-					continue
-				}
-				return sec.GetKey(name)
-			}
-			break
+		if parent := s.parent(); parent != nil {
+			return parent.getKey(name)
 		}
 		return nil, fmt.Errorf("error when getting key of section %q: key %q not exists", s.name, name)
 	}
 	return key, nil
 }
 
+// parent returns the closest existing parent section without locking, and nil
+// when there is none.
+func (s *Section) parent() *Section {
+	sname := s.name
+	for {
+		i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter)
+		if i == -1 {
+			return nil
+		}
+		sname = sname[:i]
+		if secs, err := s.f.sectionsByName(sname); err == nil {
+			return secs[0]
+		}
+	}
+}
+
 // HasKey returns true if section contains a key with given name.
 func (s *Section) HasKey(name string) bool {
 	key, _ := s.GetKey(name)
@@ -213,12 +235,31 @@ func (s *Section) Key(name string) *Key {
 		// It's OK here because the only possible error is empty key name,
 		// but if it's empty, this piece of code won't be executed.
 		// The key may have been created by others in the meantime.
-		key, _ = s.newKey(name, "", true)
+		key, _ = s.keyOrNew(name)
 		return key
 	}
 	return key
 }
 
+// keyOrNew returns the key or creates one when it does not exist.
+func (s *Section) keyOrNew(name string) (*Key, error) {
+	if len(name) == 0 {
+		return nil, errors.New("error creating new key: empty key name")
+	} else if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
+		name = strings.ToLower(name)
+	}
+
+	if s.f.BlockMode {
+		s.f.lock.Lock()
+		defer s.f.lock.Unlock()
+	}
+
+	if key, err := s.getKey(name); err == nil {
+		return key, nil
+	}
+	return s.setKey(name, "", true)
+}
+
 // Keys returns list of keys of section.
 func (s *Section) Keys() []*Key {
 	if s.f.BlockMode {
@@ -235,16 +276,23 @@ func (s *Section) Keys() []*Key {
 
 // ParentKeys returns list of keys of parent section.
 func (s *Section) ParentKeys() []*Key {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	var parentKeys []*Key
 	sname := s.name
 	for {
 		if i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter); i > -1 {
 			sname = sname[:i]
-			sec, err := s.f.GetSection(sname)
+			secs, err := s.f.sectionsByName(sname)
 			if err != nil {
 				continue
 			}
-			parentKeys = append(parentKeys, sec.Keys()...)
+			for _, name := range secs[0].keyList {
+				parentKeys = append(parentKeys, secs[0].keys[name])
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From 17f431c4ade1c428c6d7b2c5bcabedfef2f5b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 64/64] fix: do not truncate durations that overflow the field
 they are mapped to

---
 struct.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 1966a31..6fc8d08 100644
--- a/struct.go
+++ b/struct.go
@@ -190,10 +190,12 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 				if intErr != nil {
 					return wrapStrictError(err, isStrict)
 				}
-				target.SetInt(intVal)
-			} else {
-				target.SetInt(int64(durationVal))
+				durationVal = time.Duration(intVal)
+			}
+			if target.OverflowInt(int64(durationVal)) {
+				return wrapStrictError(fmt.Errorf("value %d overflows type %q", durationVal, t), isStrict)
 			}
+			target.SetInt(int64(durationVal))
 			break
 		}
 
-- 
2.43.0

