From 1de2ac5f49c79a4f4b39fccdf9ce0eb352567eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 01/21] fix: reject events without a channel name instead of
 reading them as unwritable events

---
 internal/testlang/channel/channel.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/testlang/channel/channel.go b/internal/testlang/channel/channel.go
index f14d49e..0c62805 100644
--- a/internal/testlang/channel/channel.go
+++ b/internal/testlang/channel/channel.go
@@ -5,6 +5,7 @@ package channel
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -115,6 +116,9 @@ func (c *Channel) UnmarshalTextWithRemainder(text []byte) ([]byte, error) {
 	}
 
 	c.Name = string(bytes.TrimSpace(fields[0]))
+	if c.IsEmpty() {
+		return nil, ErrEmptyName
+	}
 
 	kindBytes := bytes.TrimSpace(fields[1])
 	if err := c.Kind.UnmarshalText(kindBytes); err != nil {
@@ -128,6 +132,11 @@ func (c *Channel) UnmarshalTextWithRemainder(text []byte) ([]byte, error) {
 	return fields[numEventParts-1], nil
 }
 
+// ErrEmptyName is the error when an Event or Channel being unmarshalled has no channel name.
+//
+// Such a channel would marshal to nothing, and so could not be read back.
+var ErrEmptyName = errors.New("channel name is empty")
+
 // BadFieldCountError is the error when the number of '.' delimited fields in an Event or Channel is not valid.
 type BadFieldCountError struct {
 	Got int // Got is the number of fields we got.
-- 
2.43.0


From e678d76a412875f7f853878c8222cfcc30e6b786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 02/21] fix: clear a stale value when unmarshalling a valueless
 event

---
 internal/testlang/event.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/testlang/event.go b/internal/testlang/event.go
index e3b9db9..35be59d 100644
--- a/internal/testlang/event.go
+++ b/internal/testlang/event.go
@@ -70,7 +70,9 @@ func (e *Event) UnmarshalText(text []byte) error {
 	}
 
 	if val == nil {
-		// No value in this event.
+		// No value in this event; make sure we don't keep one from before.
+		e.Value = value.None()
+
 		return nil
 	}
 
-- 
2.43.0


From 643d23aa0b2d5f07db443a51e74ddfb064684f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 03/21] fix: refuse to collapse tests whose outcomes are out of
 order

---
 internal/trace/collapse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/trace/collapse.go b/internal/trace/collapse.go
index 9c3e568..b9eb887 100644
--- a/internal/trace/collapse.go
+++ b/internal/trace/collapse.go
@@ -21,6 +21,9 @@ func Collapse(test *testlang.Node) (Forbidden, error) {
 		return collapsed, fmt.Errorf("test does not start with a valid root: %w", err)
 	}
 
+	// The outcomes must run through the prefix, then the forbidden event, then the failure.
+	last := testlang.OutcomeInc
+
 	for done, pos := false, 1; !done; pos++ {
 		if test, err = validate.OneNext(test); err != nil {
 			return collapsed, fmt.Errorf("couldn't get node %d: %w", pos, err)
@@ -30,6 +33,12 @@ func Collapse(test *testlang.Node) (Forbidden, error) {
 			return collapsed, fmt.Errorf("node %d failed verification: %w", pos, err)
 		}
 
+		if (last == testlang.OutcomePass) != (test.Outcome == testlang.OutcomeFail) {
+			return collapsed, BadOutcomeError{Position: pos, Outcome: test.Outcome}
+		}
+
+		last = test.Outcome
+
 		if done, err = collapseNode(&collapsed, test, pos); err != nil {
 			return collapsed, err
 		}
-- 
2.43.0


From d65e1861c3e7ea647f4856c5d50aa1b4019fbb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 04/21] fix: list the values of a set in a fixed order

---
 internal/structure/set.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/structure/set.go b/internal/structure/set.go
index 32d192f..06d171f 100644
--- a/internal/structure/set.go
+++ b/internal/structure/set.go
@@ -3,6 +3,7 @@ package structure
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -26,7 +27,7 @@ func (s *Set[T]) Add(values ...T) {
 	}
 }
 
-// Values gets an unsorted slice of values present in s.
+// Values gets a slice of values present in s, sorted by their printed form.
 func (s *Set[T]) Values() []T {
 	values := make([]T, 0, len(s.contents))
 
@@ -36,6 +37,10 @@ func (s *Set[T]) Values() []T {
 		}
 	}
 
+	sort.Slice(values, func(i, j int) bool {
+		return fmt.Sprint(values[i]) < fmt.Sprint(values[j])
+	})
+
 	return values
 }
 
-- 
2.43.0


From 2a327c887d60db939aae4a2d48317a7055c351a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 05/21] fix: write machines whose events carry no value

---
 internal/stm/transition/transition.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/stm/transition/transition.go b/internal/stm/transition/transition.go
index 1892077..655f4ad 100644
--- a/internal/stm/transition/transition.go
+++ b/internal/stm/transition/transition.go
@@ -2,6 +2,7 @@
 package transition
 
 import (
+	"encoding/json"
 	"fmt"
 
 	"github.com/UoY-RoboStar/rtcg/internal/testlang"
@@ -16,6 +17,25 @@ type Transition struct {
 	// TODO: record which test this transition is from
 }
 
+// MarshalJSON marshals a Transition, leaving out the value if there is none.
+func (t Transition) MarshalJSON() ([]byte, error) {
+	output := struct {
+		Value *value.Value    `json:"value,omitempty"`
+		Next  testlang.NodeID `json:"next,omitempty"`
+	}{Value: nil, Next: t.Next}
+
+	if t.Value.IsPresent() {
+		output.Value = &t.Value
+	}
+
+	bs, err := json.Marshal(output)
+	if err != nil {
+		return nil, fmt.Errorf("couldn't marshal transition: %w", err)
+	}
+
+	return bs, nil
+}
+
 func (t Transition) String() string {
 	return fmt.Sprintf("-[%s]-> %s", &t.Value, t.Next)
 }
-- 
2.43.0


From b67a20d923911a77b98c219081bec1ee63c97c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 06/21] fix: never give two states the same identifier

---
 internal/stm/builder.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/internal/stm/builder.go b/internal/stm/builder.go
index d458f34..79f88cd 100644
--- a/internal/stm/builder.go
+++ b/internal/stm/builder.go
@@ -1,6 +1,7 @@
 package stm
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/UoY-RoboStar/rtcg/internal/structure"
@@ -14,6 +15,7 @@ type Builder struct {
 	nodeNum uint64                          // nodeNum is a monotonically increasing counter for naming unnamed nodes.
 	stack   structure.Stack[*testlang.Node] // stack is a stack used for in-order test traversal.
 	stm     Stm                             // stm is the state machine currently being built.
+	usedIDs map[testlang.NodeID]bool        // usedIDs is the set of identifiers given in the test being built.
 }
 
 // BuildSuite builds a test suite tests into a map of state machines.
@@ -76,6 +78,10 @@ func (b *Builder) Build(test *validate.Test) (Stm, error) {
 	testRoot := test.Root()
 	testRoot.ID = "initial"
 
+	if err := b.collectIDs(testRoot); err != nil {
+		return b.stm, err
+	}
+
 	b.stack.Clear()
 	b.stack.Push(testRoot)
 
@@ -148,11 +154,45 @@ func (b *Builder) buildState(node *testlang.Node) *State {
 	return result
 }
 
+// collectIDs takes note of each identifier already present in the test at root, so that we don't assign it again.
+//
+// It fails if two nodes that will become states have the same identifier.
+func (b *Builder) collectIDs(root *testlang.Node) error {
+	b.usedIDs = make(map[testlang.NodeID]bool)
+
+	err := testlang.Walk(root, func(node *testlang.Node) error {
+		if node.ID == "" || node.Outcome == testlang.OutcomeFail {
+			return nil
+		}
+
+		if b.usedIDs[node.ID] {
+			return fmt.Errorf("%w: %q", ErrDuplicateID, node.ID)
+		}
+
+		b.usedIDs[node.ID] = true
+
+		return nil
+	})
+	if err != nil {
+		return fmt.Errorf("bad identifiers: %w", err)
+	}
+
+	return nil
+}
+
 func (b *Builder) ensureNodeID(n *testlang.Node) {
 	if n.ID != "" {
 		return
 	}
 
+	// Skip any identifier that another node has already been given.
+	for b.usedIDs[testlang.NodeID(fmt.Sprintf("step%d", b.nodeNum))] {
+		b.nodeNum++
+	}
+
 	n.ID = testlang.NodeID(fmt.Sprintf("step%d", b.nodeNum))
 	b.nodeNum++
 }
+
+// ErrDuplicateID occurs when two nodes of a test share an identifier, so their states couldn't be told apart.
+var ErrDuplicateID = errors.New("more than one node has the same identifier")
-- 
2.43.0


From f4928041282a8d775357ef9ffeb5c7e4f6798efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 07/21] fix: reject a null test instead of crashing

---
 internal/validate/errors.go   | 3 +++
 internal/validate/validate.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/internal/validate/errors.go b/internal/validate/errors.go
index 8cd3067..e4bdd73 100644
--- a/internal/validate/errors.go
+++ b/internal/validate/errors.go
@@ -24,6 +24,9 @@ var (
 	// ErrNoOutcome occurs when a non-root node has no outcome.
 	ErrNoOutcome = errors.New("non-root node should have an outcome set")
 
+	// ErrNoRoot occurs when a test has no root node at all.
+	ErrNoRoot = errors.New("test should have a root")
+
 	// ErrNoTests occurs when a node has no tests set.
 	ErrNoTests = errors.New("node should belong to at least one test")
 
diff --git a/internal/validate/validate.go b/internal/validate/validate.go
index 9d26ad1..e99c1cb 100644
--- a/internal/validate/validate.go
+++ b/internal/validate/validate.go
@@ -20,6 +20,10 @@ func (t Test) Root() *testlang.Node {
 // Full performs a full validation of the test starting at root.
 // If successful, it returns a Test.
 func Full(root *testlang.Node) (*Test, error) {
+	if root == nil {
+		return nil, fmt.Errorf("failed to validate test: %w", ErrNoRoot)
+	}
+
 	// TODO: check test monotonicity and partitioning
 	err := testlang.Walk(root, func(node *testlang.Node) error {
 		var err error
-- 
2.43.0


From bf3c3e497465417285ef6c7e44352ac2940846c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 08/21] fix: generate and include the conversion header when no
 channel type is overridden

---
 internal/gen/cpp/cpp.go                             | 12 ++++++++++++
 internal/gen/makefile/embed/templates/Makefile.tmpl |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/gen/cpp/cpp.go b/internal/gen/cpp/cpp.go
index 200c788..72f4ad8 100644
--- a/internal/gen/cpp/cpp.go
+++ b/internal/gen/cpp/cpp.go
@@ -3,6 +3,7 @@ package cpp
 
 import (
 	"fmt"
+	"os"
 
 	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
@@ -10,6 +11,10 @@ import (
 	"github.com/UoY-RoboStar/rtcg/internal/stm"
 )
 
+const (
+	convertDirPerms = 0o754 // convertDirPerms is the conversion directory permission mask.
+)
+
 // Generator is a C++ code generator.
 type Generator struct {
 	config    cfg.Config       // config is the configuration for this Generator.
@@ -95,6 +100,13 @@ func (o *OnSuite) Generate() error {
 }
 
 func (o *OnSuite) generateCommon() error {
+	convertPath := o.parent.srcDirSet.OutputPath(convertDir)
+
+	// There may be no conversions, but there is always a conversion header.
+	if err := os.MkdirAll(convertPath, convertDirPerms); err != nil {
+		return fmt.Errorf("couldn't make conversion directory at %q: %w", convertPath, err)
+	}
+
 	if err := o.copyConvertFile(); err != nil {
 		return err
 	}
diff --git a/internal/gen/makefile/embed/templates/Makefile.tmpl b/internal/gen/makefile/embed/templates/Makefile.tmpl
index 736e716..3d26c5c 100644
--- a/internal/gen/makefile/embed/templates/Makefile.tmpl
+++ b/internal/gen/makefile/embed/templates/Makefile.tmpl
@@ -1,6 +1,6 @@
 {{- define "output" -}}bin/{{ . }}{{- end -}}
 {{- define "reg_inputs" -}}src/{{ . }}/src/main.cpp src/rtcg/rtcg.cpp{{- end -}}
-{{- define "iconvert" -}}{{- if .HasConversion }} -Isrc/convert{{- end -}}{{- end -}}
+{{- define "iconvert" }} -Isrc/convert{{- end -}}
 {{- define "convert" -}}{{- if .HasConversion }} src/convert/convert.cpp{{- end -}}{{- end -}}
 
 .POSIX:
-- 
2.43.0


From 08717256d6ebbe152598381dfc671ed87b6e102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 09/21] fix: provide the convert.cpp that generated CMake files
 always compile

---
 internal/gen/cpp/cpp.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/gen/cpp/cpp.go b/internal/gen/cpp/cpp.go
index 72f4ad8..d6d94ab 100644
--- a/internal/gen/cpp/cpp.go
+++ b/internal/gen/cpp/cpp.go
@@ -3,7 +3,9 @@ package cpp
 
 import (
 	"fmt"
+	"io"
 	"os"
+	"strings"
 
 	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
@@ -121,12 +123,23 @@ func (o *OnSuite) generateCommon() error {
 // copyConvertFile copies convert.cpp from the input directory, if there is one.
 func (o *OnSuite) copyConvertFile() error {
 	if !o.cctx.HasConversion {
-		return nil
+		return o.makePlaceholderConvertFile()
 	}
 
 	return copyLocalFile(o.parent.srcDirSet.Subdir(convertDir), "convert.cpp")
 }
 
+// makePlaceholderConvertFile makes an empty convert.cpp for Catkin packages, whose CMakeLists.txt always compiles one.
+func (o *OnSuite) makePlaceholderConvertFile() error {
+	if o.parent.config.Catkin == nil {
+		return nil
+	}
+
+	src := io.NopCloser(strings.NewReader("// No channel types are overridden, so there are no conversion functions.\n"))
+
+	return writeFile(src, o.parent.srcDirSet.Subdir(convertDir).OutputPath("convert.cpp"))
+}
+
 func (o *OnSuite) generateTestSpecific() error {
 	for name, test := range o.suite.Tests {
 		dirs := o.parent.srcDirSet.Subdir(name)
-- 
2.43.0


From ed429eec058b3983384958a2d5e400bcf8b7b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 10/21] fix: generate compilable code for events that carry no
 value

---
 internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl | 4 ++++
 internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl | 2 ++
 internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl | 4 ++++
 internal/gen/cpp/func.go                                    | 6 ++++++
 4 files changed, 16 insertions(+)

diff --git a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
index 8619c66..4e69135 100644
--- a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
@@ -43,8 +43,12 @@
 {{-   $ctype := index $.ChannelTypes $cn }}
     else if (choice == "{{ $cn }}")
     {
+{{-   if $ctype.Base.IsEmpty }}
+      bool in = true; // This output carries no value.
+{{-   else }}
       {{ cppType $ctype.Base }} in;
       std::cin >> in;
+{{-   end }}
 
       stm.{{ cppCallbackName .Channel.Name }}({{ cppConvertTo .Channel.Name }}(in));
     }
diff --git a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
index 491ed23..31a3bc8 100644
--- a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
@@ -16,6 +16,8 @@ Base indent is set at 2, as we are inside a top-level function.
 {{-     $ty := $t.Value.Type -}}
 {{-     if $ty.IsEnum -}}
     value.compare("{{ $t.Value.StringValue }}") == 0
+{{-     else if $ty.IsEmpty -}}
+    true
 {{-     else -}}
     value == {{ $t.Value.StringValue }}
 {{-     end -}}
diff --git a/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl b/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
index 23605db..fbad0cb 100644
--- a/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
+++ b/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
@@ -8,6 +8,8 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
 {{- define "convert_from" -}}
 {{-   if .IsEnum }}
   return std::string(msg->data.c_str());
+{{-   else if .IsEmpty }}
+  return true;  // No value to convert
 {{-   else }}
   return msg->data;  // No conversion required
 {{-   end -}}
@@ -23,6 +25,8 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
   std_msgs::String msg;
   msg.data = value.c_str();
   return msg;
+{{-   else if .IsEmpty }}
+  return std_msgs::String();  // No value to convert
 {{-   else }}
   return value;  // No conversion required
 {{-   end -}}
diff --git a/internal/gen/cpp/func.go b/internal/gen/cpp/func.go
index 80a58a6..733a0aa 100644
--- a/internal/gen/cpp/func.go
+++ b/internal/gen/cpp/func.go
@@ -96,6 +96,8 @@ func StdType(rsType rstype.RsType) string {
 		return "int"
 	case rsType.IsReal():
 		return "double"
+	case rsType.IsEmpty():
+		return "bool" // There is no value, but C++ needs something to pass around (see Value).
 	default:
 		return "void *"
 	}
@@ -106,6 +108,10 @@ func Value(val value.Value) string {
 	// TODO: do this without type introspection.
 	typ := val.Type()
 
+	if typ.IsEmpty() {
+		return "true"
+	}
+
 	if typ.IsEnum() {
 		return fmt.Sprintf("\"%s\"", val.StringValue())
 	}
-- 
2.43.0


From 2f54c57127a03344afddc4f8bf43dd3168d0163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 11/21] fix: escape enumeration constants in generated string
 literals

---
 internal/testlang/value/enum.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/testlang/value/enum.go b/internal/testlang/value/enum.go
index c2451dc..029bedd 100644
--- a/internal/testlang/value/enum.go
+++ b/internal/testlang/value/enum.go
@@ -2,6 +2,7 @@ package value
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
 )
@@ -26,8 +27,22 @@ func (e *EnumValue) String() string {
 	return fmt.Sprintf("enum!%q", string(*e))
 }
 
+// StringValue gets the contents of e, escaped so that they can be put inside a C++ string literal.
 func (e *EnumValue) StringValue() string {
-	return string(*e)
+	var builder strings.Builder
+
+	for _, char := range []byte(*e) {
+		switch {
+		case char == '"', char == '\\', char == '?': // The question mark could be part of a trigraph.
+			_, _ = builder.Write([]byte{'\\', char})
+		case char < ' ', char == '\x7f':
+			_, _ = fmt.Fprintf(&builder, "\\%03o", char)
+		default:
+			_ = builder.WriteByte(char)
+		}
+	}
+
+	return builder.String()
 }
 
 func (*EnumValue) Type() *rstype.RsType {
-- 
2.43.0


From 6e3935f67584f67f0dd35ba7dbf2d01c78b683f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 12/21] fix: end the animator at the end of its input and
 refuse malformed values

---
 .../cpp/embed/templates/animate/main_body.cpp.tmpl  | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
index 4e69135..e02726b 100644
--- a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
@@ -28,6 +28,9 @@
     std::string choice;
     std::cin >> choice;
 
+    if (!std::cin)
+      choice = "timeout"; // There is nothing more to read.
+
     if (choice == "timeout")
       stm.timeoutCallback();
 {{- if .Transitions.FirstStateHasIn }}
@@ -48,6 +51,16 @@
 {{-   else }}
       {{ cppType $ctype.Base }} in;
       std::cin >> in;
+
+      if (!std::cin)
+      {
+        // Discard whatever it was that we couldn't read (if anything).
+        std::cin.clear();
+        std::cin >> choice;
+        std::cout << "Sorry, try again.\n";
+        continue;
+      }
+
 {{-   end }}
 
       stm.{{ cppCallbackName .Channel.Name }}({{ cppConvertTo .Channel.Name }}(in));
-- 
2.43.0


From 1ad8e3402be9c3016a00c25b812f940063ee6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 13/21] fix: ignore events after a generated test has ended, or
 acknowledgements before it has sent an input

---
 .../gen/cpp/embed/templates/base/in_callback.cpp.tmpl  |  8 ++++++++
 internal/gen/cpp/embed/templates/base/stm.cpp.tmpl     | 10 ++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl b/internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl
index 1bc8edc..8fa999f 100644
--- a/internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl
@@ -5,6 +5,14 @@ It expects a state/transition map.
 
 Base indent is set at 2, as we are inside a top-level function.
 */}}
+{{- /* If we have yet to enter the initial state, we can't have sent its input. */}}
+  if (status_ != rtcg::Status::WAIT_IN)
+  {
+    {{ template "log" "error" }}"Accepted input when not waiting for one, in state " << stateName(){{ template "end_log" }}
+    end(rtcg::Status::BUG);
+    return;
+  }
+
   switch (state_)
   {
 {{- range $s, $ts := . }}
diff --git a/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl b/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
index 3cbedd5..8622b43 100644
--- a/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
@@ -115,7 +115,10 @@ void StateMachine::initialDelayCallback({{ template "initial_delay_callback_args
 
 void StateMachine::inputAcceptedCallback({{ template "in_callback_args" }})
 {
-{{-   block "in_callback" .Transitions.InMerged }}
+  // Don't acknowledge this callback if the test has already ended.
+  if (!rtcg::status::isRunning(status_))
+    return;
+{{    block "in_callback" .Transitions.InMerged }}
 {{-     template "in_callback.cpp.tmpl" . }}
 {{-   end -}}
 }
@@ -125,7 +128,10 @@ void StateMachine::inputAcceptedCallback({{ template "in_callback_args" }})
 
 void StateMachine::{{ cppCallbackName .Channel.Name }}(const {{ cppChannelMsgType .Channel.Name }} msg)
 {
-{{- block "out_callback" . }}
+  // Don't acknowledge this callback if the test has already ended.
+  if (!rtcg::status::isRunning(status_))
+    return;
+{{  block "out_callback" . }}
 {{-   template "out_callback.cpp.tmpl" . }}
 {{- end -}}
 }
-- 
2.43.0


From 452541e4cba20d20a2aa47af11c3ca5e954ebd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 14/21] fix: refuse test names that lead out of the output
 directory

---
 internal/gen/check.go | 33 +++++++++++++++++++++++++++++++++
 internal/gen/gen.go   | 12 +++++++++++-
 2 files changed, 44 insertions(+), 1 deletion(-)
 create mode 100644 internal/gen/check.go

diff --git a/internal/gen/check.go b/internal/gen/check.go
new file mode 100644
index 0000000..8f8d3ec
--- /dev/null
+++ b/internal/gen/check.go
@@ -0,0 +1,33 @@
+package gen
+
+import (
+	"errors"
+	"fmt"
+	"path/filepath"
+	"strings"
+
+	"github.com/UoY-RoboStar/rtcg/internal/stm"
+)
+
+// checkSuite checks that suite can be generated at all.
+func checkSuite(suite *stm.Suite) error {
+	for name := range suite.Tests {
+		if err := checkTestName(name); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+// checkTestName checks that name can be the name of a directory, and can't lead out of the output directory.
+func checkTestName(name string) error {
+	if name == "." || !filepath.IsLocal(name) || strings.ContainsAny(name, `/\`) {
+		return fmt.Errorf("%w: %q", ErrBadTestName, name)
+	}
+
+	return nil
+}
+
+// ErrBadTestName occurs when the name of a test can't be used as a directory name.
+var ErrBadTestName = errors.New("test name can't be used as a directory name")
diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index f6d5213..29e088d 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -123,15 +123,25 @@ func (g *Generator) OnSuite(suite *stm.Suite) *OnSuite {
 		subgens[i] = subg.OnSuite(suite)
 	}
 
-	return &OnSuite{parent: g, subgens: subgens}
+	return &OnSuite{parent: g, suite: suite, subgens: subgens}
 }
 
 type OnSuite struct {
 	parent  *Generator
+	suite   *stm.Suite
 	subgens []subgen.OnSuite
 }
 
+// Check checks that the suite is one for which we can generate code.
+func (o *OnSuite) Check() error {
+	return checkSuite(o.suite)
+}
+
 func (o *OnSuite) Generate() error {
+	if err := o.Check(); err != nil {
+		return err
+	}
+
 	if err := o.mkdirs(); err != nil {
 		return err
 	}
-- 
2.43.0


From 0b9b2b63d5b3f8439a3340700ced9eb73e17abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 15/21] fix: refuse incomplete state machines instead of
 crashing or generating broken code

---
 internal/gen/check.go | 64 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 61 insertions(+), 3 deletions(-)

diff --git a/internal/gen/check.go b/internal/gen/check.go
index 8f8d3ec..ea16faa 100644
--- a/internal/gen/check.go
+++ b/internal/gen/check.go
@@ -7,14 +7,58 @@ import (
 	"strings"
 
 	"github.com/UoY-RoboStar/rtcg/internal/stm"
+	"github.com/UoY-RoboStar/rtcg/internal/testlang"
 )
 
 // checkSuite checks that suite can be generated at all.
 func checkSuite(suite *stm.Suite) error {
-	for name := range suite.Tests {
+	for name, ctype := range suite.Types {
+		if ctype == nil {
+			return fmt.Errorf("%w: channel %q", ErrMissingType, name)
+		}
+	}
+
+	for name, test := range suite.Tests {
 		if err := checkTestName(name); err != nil {
 			return err
 		}
+
+		if err := checkTest(suite, test); err != nil {
+			return fmt.Errorf("malformed state machine for test %q: %w", name, err)
+		}
+	}
+
+	return nil
+}
+
+// checkTest checks that the state machine test, which is part of suite, is complete.
+func checkTest(suite *stm.Suite, test *stm.Stm) error {
+	if test == nil || len(test.States) == 0 {
+		return ErrNoStates
+	}
+
+	states := make(map[testlang.NodeID]bool, len(test.States))
+
+	for _, state := range test.States {
+		if state == nil || state.ID == "" {
+			return ErrNoStateID
+		}
+
+		states[state.ID] = true
+	}
+
+	for _, set := range test.TransitionSets() {
+		if suite.Types[set.Channel.Name] == nil {
+			return fmt.Errorf("%w: channel %q", ErrMissingType, set.Channel.Name)
+		}
+
+		for id, transitions := range set.States {
+			for _, tra := range transitions {
+				if !states[tra.Next] {
+					return fmt.Errorf("%w: %q, from %q", ErrNoNextState, tra.Next, id)
+				}
+			}
+		}
 	}
 
 	return nil
@@ -29,5 +73,19 @@ func checkTestName(name string) error {
 	return nil
 }
 
-// ErrBadTestName occurs when the name of a test can't be used as a directory name.
-var ErrBadTestName = errors.New("test name can't be used as a directory name")
+var (
+	// ErrBadTestName occurs when the name of a test can't be used as a directory name.
+	ErrBadTestName = errors.New("test name can't be used as a directory name")
+
+	// ErrMissingType occurs when a channel has no type.
+	ErrMissingType = errors.New("no type given")
+
+	// ErrNoNextState occurs when a transition leads to a state that doesn't exist.
+	ErrNoNextState = errors.New("no such next state")
+
+	// ErrNoStateID occurs when a state is missing, or has no identifier.
+	ErrNoStateID = errors.New("state without an identifier")
+
+	// ErrNoStates occurs when a test has no states.
+	ErrNoStates = errors.New("test without any states")
+)
-- 
2.43.0


From 4329ea321cbfc807ee62b7ab818075adfd56f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 16/21] fix: read the configuration before cleaning the output
 directory

---
 cmd/rtcg-gen/main.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index 6ded82b..f11c66a 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -74,10 +74,6 @@ func (a *genAction) run() error {
 		return fmt.Errorf("couldn't read state machine suite: %w", err)
 	}
 
-	if err := a.maybeClean(); err != nil {
-		return err
-	}
-
 	return a.generate(stms)
 }
 
@@ -124,7 +120,18 @@ func (a *genAction) generate(suite *stm.Suite) error {
 		return fmt.Errorf("couldn't create generator: %w", err)
 	}
 
-	if err := g.OnSuite(suite).Generate(); err != nil {
+	onSuite := g.OnSuite(suite)
+
+	// Only clean once we know that there is something to generate.
+	if err := onSuite.Check(); err != nil {
+		return fmt.Errorf("couldn't generate: %w", err)
+	}
+
+	if err := a.maybeClean(); err != nil {
+		return err
+	}
+
+	if err := onSuite.Generate(); err != nil {
 		return fmt.Errorf("couldn't generate: %w", err)
 	}
 
-- 
2.43.0


From 44eda3872b2100a684f9875a002d9bfae6a38fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 17/21] fix: refuse to clean the current directory, or one
 above it, however it is spelled

---
 cmd/rtcg-gen/main.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index f11c66a..44fe9d5 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"flag"
 	"fmt"
+	"io/fs"
 	"os"
 	"path/filepath"
 
@@ -86,6 +87,10 @@ func (a *genAction) maybeClean() error {
 		return ErrCleanDot
 	}
 
+	if err := checkCleanable(a.outputDir); err != nil {
+		return err
+	}
+
 	if err := os.RemoveAll(a.outputDir); err != nil {
 		return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
 	}
@@ -93,6 +98,40 @@ func (a *genAction) maybeClean() error {
 	return nil
 }
 
+// checkCleanable checks that dir isn't another way of spelling the current directory, or a directory that contains it.
+func checkCleanable(dir string) error {
+	dirInfo, err := os.Stat(dir)
+	if errors.Is(err, fs.ErrNotExist) {
+		return nil
+	}
+
+	if err != nil {
+		return fmt.Errorf("couldn't inspect %q before cleaning: %w", dir, err)
+	}
+
+	current, err := os.Getwd()
+	if err == nil {
+		current, err = filepath.EvalSymlinks(current)
+	}
+
+	if err != nil {
+		return fmt.Errorf("couldn't get current directory before cleaning: %w", err)
+	}
+
+	for {
+		if info, err := os.Stat(current); err == nil && os.SameFile(dirInfo, info) {
+			return ErrCleanDot
+		}
+
+		parent := filepath.Dir(current)
+		if parent == current {
+			return nil
+		}
+
+		current = parent
+	}
+}
+
 // ErrCleanDot occurs if we try to clean "." (current directory).
 //
 // We don't support this because it would then change or confuse the current working directory.
-- 
2.43.0


From bf0ac228704bbaa695750d94334728bf1fa4c7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:34 +0000
Subject: [PATCH 18/21] fix: refuse state machines with verdicts missing or on
 tests they don't list

---
 internal/gen/check.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/gen/check.go b/internal/gen/check.go
index ea16faa..e550141 100644
--- a/internal/gen/check.go
+++ b/internal/gen/check.go
@@ -37,6 +37,12 @@ func checkTest(suite *stm.Suite, test *stm.Stm) error {
 		return ErrNoStates
 	}
 
+	tests := make(map[string]bool)
+
+	for _, name := range test.Tests.Values() {
+		tests[name] = true
+	}
+
 	states := make(map[testlang.NodeID]bool, len(test.States))
 
 	for _, state := range test.States {
@@ -45,6 +51,16 @@ func checkTest(suite *stm.Suite, test *stm.Stm) error {
 		}
 
 		states[state.ID] = true
+
+		if state.Verdict == nil {
+			return fmt.Errorf("%w: %q", ErrNoVerdict, state.ID)
+		}
+
+		for _, name := range state.Verdict.Tests() {
+			if !tests[name] {
+				return fmt.Errorf("%w: %q, in state %q", ErrUnknownTest, name, state.ID)
+			}
+		}
 	}
 
 	for _, set := range test.TransitionSets() {
@@ -88,4 +104,10 @@ var (
 
 	// ErrNoStates occurs when a test has no states.
 	ErrNoStates = errors.New("test without any states")
+
+	// ErrNoVerdict occurs when a state has no verdict.
+	ErrNoVerdict = errors.New("state without a verdict")
+
+	// ErrUnknownTest occurs when a verdict is about a test that the state machine doesn't list.
+	ErrUnknownTest = errors.New("verdict on an unlisted test")
 )
-- 
2.43.0


From 30e85cb0487145cdbc52e334162687616ff31202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 19/21] fix: refuse state machines with empty transition sets
 instead of generating broken code

---
 internal/gen/check.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/gen/check.go b/internal/gen/check.go
index e550141..4629a37 100644
--- a/internal/gen/check.go
+++ b/internal/gen/check.go
@@ -52,6 +52,12 @@ func checkTest(suite *stm.Suite, test *stm.Stm) error {
 
 		states[state.ID] = true
 
+		for _, set := range state.TransitionSets {
+			if len(set.Transitions) == 0 {
+				return fmt.Errorf("%w: channel %q, in state %q", ErrNoTransitions, set.Channel.Name, state.ID)
+			}
+		}
+
 		if state.Verdict == nil {
 			return fmt.Errorf("%w: %q", ErrNoVerdict, state.ID)
 		}
@@ -105,6 +111,9 @@ var (
 	// ErrNoStates occurs when a test has no states.
 	ErrNoStates = errors.New("test without any states")
 
+	// ErrNoTransitions occurs when a state has a transition set without any transitions.
+	ErrNoTransitions = errors.New("transition set without any transitions")
+
 	// ErrNoVerdict occurs when a state has no verdict.
 	ErrNoVerdict = errors.New("state without a verdict")
 
-- 
2.43.0


From 670de6e3531fafc62e58c7995173a9f075a32d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 20/21] fix: don't destroy convert.cpp when the output
 directory is the input directory

---
 internal/gen/cpp/copy.go | 17 +++++++++++++++++
 internal/gen/cpp/cpp.go  | 10 ++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/internal/gen/cpp/copy.go b/internal/gen/cpp/copy.go
index a042401..36aa021 100644
--- a/internal/gen/cpp/copy.go
+++ b/internal/gen/cpp/copy.go
@@ -18,6 +18,7 @@ var prelude embed.FS
 
 const (
 	convertDir   = "convert"       // convertDir is the subdirectory where we store the conversion code.
+	convertFile  = "convert.cpp"   // convertFile is the file in convertDir that holds the conversion code.
 	preludeDir   = "rtcg"          // preludeDir is the subdirectory where we store the prelude.
 	preludeMount = "embed/prelude" // preludeMount is the directory in prelude where the prelude is.
 )
@@ -50,6 +51,10 @@ func copyLocalFile(dirs gencommon.DirSet, name string) error {
 	srcPath := filepath.Join(dirs.Input, name)
 	dstPath := filepath.Join(dirs.Output, name)
 
+	if sameFile(srcPath, dstPath) {
+		return nil
+	}
+
 	src, err := os.Open(srcPath)
 	if err != nil {
 		return fmt.Errorf("couldn't open file %q: %w", srcPath, err)
@@ -58,6 +63,18 @@ func copyLocalFile(dirs gencommon.DirSet, name string) error {
 	return writeFile(src, dstPath)
 }
 
+// sameFile gets whether both paths lead to the same existing file, in which case copying would destroy it.
+func sameFile(path1, path2 string) bool {
+	info1, err := os.Stat(path1)
+	if err != nil {
+		return false
+	}
+
+	info2, err := os.Stat(path2)
+
+	return err == nil && os.SameFile(info1, info2)
+}
+
 func writeFile(src io.ReadCloser, outFile string) error {
 	dst, err := os.Create(outFile)
 	if err != nil {
diff --git a/internal/gen/cpp/cpp.go b/internal/gen/cpp/cpp.go
index d6d94ab..0553243 100644
--- a/internal/gen/cpp/cpp.go
+++ b/internal/gen/cpp/cpp.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 	"strings"
 
 	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
@@ -126,7 +127,7 @@ func (o *OnSuite) copyConvertFile() error {
 		return o.makePlaceholderConvertFile()
 	}
 
-	return copyLocalFile(o.parent.srcDirSet.Subdir(convertDir), "convert.cpp")
+	return copyLocalFile(o.parent.srcDirSet.Subdir(convertDir), convertFile)
 }
 
 // makePlaceholderConvertFile makes an empty convert.cpp for Catkin packages, whose CMakeLists.txt always compiles one.
@@ -135,9 +136,14 @@ func (o *OnSuite) makePlaceholderConvertFile() error {
 		return nil
 	}
 
+	dirs := o.parent.srcDirSet.Subdir(convertDir)
+	if sameFile(filepath.Join(dirs.Input, convertFile), dirs.OutputPath(convertFile)) {
+		return nil
+	}
+
 	src := io.NopCloser(strings.NewReader("// No channel types are overridden, so there are no conversion functions.\n"))
 
-	return writeFile(src, o.parent.srcDirSet.Subdir(convertDir).OutputPath("convert.cpp"))
+	return writeFile(src, dirs.OutputPath(convertFile))
 }
 
 func (o *OnSuite) generateTestSpecific() error {
-- 
2.43.0


From b8a868f1f1529d91b3a52910a3adbeff4123b031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:24 +0000
Subject: [PATCH 21/21] fix: read the input file that is named

Cleaning the path made rtcg-gen read standard input for ./- and another file
than the one named where .. follows a symbolic link.
---
 cmd/rtcg-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index 44fe9d5..5e81b6a 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -68,7 +68,6 @@ type genAction struct {
 func (a *genAction) run() error {
 	a.outputDir = filepath.Clean(a.outputDir)
 	a.configFile = filepath.Clean(a.configFile)
-	a.inputFile = filepath.Clean(a.inputFile)
 
 	stms, err := a.readSuite()
 	if err != nil {
-- 
2.43.0

