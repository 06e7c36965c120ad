From daf1799689b48d8bd06bb38598c33505f44562df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 01/62] fix: go on after a command whose errors are allowed
 fails

A command with %err=ok that ended by a panic made the flow restart from its
second command, left the stack of the failed subflow behind (so that the flow
failed later) and left the subflow open in the session status. Without a
session status (ticat called by a script) the errors were not allowed at all.
Quitting by user was swallowed too.
---
 pkg/core/model/cmd.go | 54 ++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index db61fae..c123623 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -242,28 +242,46 @@ func (self *Cmd) execute(
 
 	logFilePath := self.genLogFilePath(env)
 
+	// The flow goes on from here if the command fails with its errors allowed
+	newCurrCmdIdx = currCmdIdx
+	stackEnv := env.GetLayer(EnvLayerSession)
+	stack := stackEnv.GetRaw("sys.stack")
+	stackDepth := stackEnv.GetRaw("sys.stack-depth")
+
+	statusLevel := 0
 	if cc.FlowStatus != nil {
+		statusLevel = cc.FlowStatus.level
 		cc.FlowStatus.OnCmdStart(flow, currCmdIdx, env, logFilePath)
-		defer func() {
-			r := recover()
-			handledErr := false
-			var err error
-			isAbort := false
-			if r != nil {
-				handledErr = cc.HandledErrors[r]
-				err = r.(error)
-				_, isAbort = err.(*AbortByUserErr)
-			}
+	}
 
-			if (r == nil || !handledErr) && !isAbort {
-				cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
-				cc.HandledErrors[r] = true
-			}
-			if r != nil && !self.flags.quietError && !allowError {
-				panic(r)
+	defer func() {
+		r := recover()
+		handledErr := false
+		var err error
+		isAbort := false
+		if r != nil {
+			handledErr = cc.HandledErrors[r] && !allowError
+			err = r.(error)
+			_, isAbort = err.(*AbortByUserErr)
+		}
+
+		if cc.FlowStatus != nil && (r == nil || !handledErr) && !isAbort {
+			// A failed subflow is still open
+			for cc.FlowStatus.level > statusLevel {
+				cc.FlowStatus.OnSubFlowFinish(env, false, false)
 			}
-		}()
-	}
+			cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
+			cc.HandledErrors[r] = true
+		}
+		if r != nil && (isAbort || !self.flags.quietError && !allowError) {
+			panic(r)
+		}
+		if !succeeded && allowError {
+			// A failed subflow didn't step out
+			stackEnv.Set("sys.stack", stack)
+			stackEnv.Set("sys.stack-depth", stackDepth)
+		}
+	}()
 
 	if mask != nil && mask.OverWriteFinishEnv != nil {
 		p := env
-- 
2.43.0


From b165856778a4e4e5572f3c75e836f381dcf25f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 02/62] fix: report env files which can't be read completely

A read error or a line longer than 64KB ended the reading of an env file
without an error, the rest of the values were lost silently (and dropped from
the file by the next save).
---
 pkg/core/model/proto.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 1db1472..933377b 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -1,9 +1,9 @@
 package model
 
 import (
-	"bufio"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"sort"
@@ -34,13 +34,15 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 }
 
 func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
-	scanner := bufio.NewScanner(reader)
-	scanner.Split(bufio.ScanLines)
-	for scanner.Scan() {
-		text := scanner.Text()
-		if strings.HasSuffix(text, "\n") {
-			text = text[0 : len(text)-1]
-		}
+	data, err := ioutil.ReadAll(reader)
+	if err != nil {
+		return err
+	}
+	lines := strings.Split(string(data), "\n")
+	if lines[len(lines)-1] == "" {
+		lines = lines[:len(lines)-1]
+	}
+	for _, text := range lines {
 		i := strings.Index(text, sep)
 		if i < 0 {
 			return fmt.Errorf("[EnvInput] bad format line '%s', sep '%s'",
-- 
2.43.0


From 374baf4b0f2d4918cf61e482d23ae94db068db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 03/62] fix: don't write env files which can't be read back

A value with a line break was written as it is: every later ticat failed to
read the saved env file, or read other key-values than the saved ones.
---
 pkg/core/model/proto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 933377b..5a41934 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -25,6 +25,9 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 	sort.Strings(keys)
 	for _, k := range keys {
 		v := env.GetRaw(k)
+		if strings.Contains(k+v, "\n") {
+			return fmt.Errorf("[EnvOutput] the value of '%s' has more than one line, can't be saved", k)
+		}
 		_, err := fmt.Fprintf(writer, "%s%s%s\n", k, sep, v)
 		if err != nil {
 			return err
-- 
2.43.0


From b8e87d30cd38ec1645bb1e8a764a2cdd8c422045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 04/62] fix: save env files by a tmp file of its own

Two processes saving the same env file at the same time wrote into one tmp
file: a mixed file could get the final name, or the renaming failed. A failing
close was ignored.
---
 pkg/core/model/proto.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 5a41934..09e9eea 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -64,23 +64,35 @@ func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 }
 
 func saveEnvToFile(env *Env, path string, sep string, filtered []string, skipDefault bool) {
-	tmp := path + ".tmp"
-	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	// Each saving uses its own tmp file, there may be others saving the same file
+	file, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".*.tmp")
 	if err != nil {
-		panic(fmt.Errorf("[SaveEnvToFile] open env file '%s' failed: %v", tmp, err))
+		panic(fmt.Errorf("[SaveEnvToFile] create tmp file for env file '%s' failed: %v", path, err))
+	}
+	tmp := file.Name()
+	fail := func(format string, a ...interface{}) {
+		file.Close()
+		os.Remove(tmp)
+		panic(fmt.Errorf(format, a...))
 	}
-	defer file.Close()
 
 	err = EnvOutput(env, file, sep, filtered, skipDefault)
 	if err != nil {
-		panic(fmt.Errorf("[SaveEnvToFile] write env file '%s' failed: %v", tmp, err))
+		fail("[SaveEnvToFile] write env file '%s' failed: %v", tmp, err)
+	}
+	err = file.Chmod(0644)
+	if err != nil {
+		fail("[SaveEnvToFile] set mode of env file '%s' failed: %v", tmp, err)
+	}
+	err = file.Close()
+	if err != nil {
+		fail("[SaveEnvToFile] close env file '%s' failed: %v", tmp, err)
 	}
-	file.Close()
 
 	err = os.Rename(tmp, path)
 	if err != nil {
-		panic(fmt.Errorf("[SaveEnvToFile] rename env file '%s' to '%s' failed: %v",
-			tmp, path, err))
+		fail("[SaveEnvToFile] rename env file '%s' to '%s' failed: %v",
+			tmp, path, err)
 	}
 }
 
-- 
2.43.0


From 470425f3ee16c799bc1720cce70773eff35ae55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 05/62] fix: keep the stack of the caller when a script called
 ticat

The session env file written by a ticat called inside a script holds the stack
of that ticat. It was loaded into the caller, which then failed with 'stack
string not match' although everything had succeeded.
---
 pkg/core/model/cmd.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index c123623..da12e79 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -1062,7 +1062,13 @@ func (self *Cmd) executeFile(argv ArgVals, cc *Cli, env *Env, allowError bool, p
 	}
 
 	if len(sessionPath) != 0 {
-		LoadEnvFromFile(env.GetLayer(EnvLayerSession), sessionPath, sep, delMark)
+		sessionEnv := env.GetLayer(EnvLayerSession)
+		stack := sessionEnv.GetRaw("sys.stack")
+		stackDepth := sessionEnv.GetRaw("sys.stack-depth")
+		LoadEnvFromFile(sessionEnv, sessionPath, sep, delMark)
+		// The stack in the file could be the one of a ticat called by the script
+		sessionEnv.Set("sys.stack", stack)
+		sessionEnv.Set("sys.stack-depth", stackDepth)
 	}
 	return true
 }
-- 
2.43.0


From 847e5edc602858929463ff1082b75c9a66e45116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 06/62] fix: save env keys with empty values, too

---
 pkg/core/model/proto.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 09e9eea..06d4138 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -16,8 +16,11 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 	flatten := env.Flatten(true, filtered, false)
 	var keys []string
 	for k, v := range flatten {
-		if skipDefault && defEnv.GetRaw(k) == v {
-			continue
+		if skipDefault {
+			def, ok := defEnv.GetEx(k)
+			if ok && def.Raw == v {
+				continue
+			}
 		}
 		keys = append(keys, k)
 	}
-- 
2.43.0


From 7262ae366c24587b754bfba4a03ce6fdfb48e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 07/62] fix: don't overwrite env snapshots which were saved
 just now by others

---
 pkg/core/model/proto.go          | 25 ++++++++++++++++++++++---
 pkg/mods/builtin/env_snapshot.go |  6 +++++-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 06d4138..b906b6b 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -66,7 +66,7 @@ func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 	return nil
 }
 
-func saveEnvToFile(env *Env, path string, sep string, filtered []string, skipDefault bool) {
+func saveEnvToFile(env *Env, path string, sep string, filtered []string, skipDefault bool, overwrite bool) {
 	// Each saving uses its own tmp file, there may be others saving the same file
 	file, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".*.tmp")
 	if err != nil {
@@ -92,6 +92,16 @@ func saveEnvToFile(env *Env, path string, sep string, filtered []string, skipDef
 		fail("[SaveEnvToFile] close env file '%s' failed: %v", tmp, err)
 	}
 
+	if !overwrite {
+		// Unlike renaming, linking fails if there is a file, even if it was just created by another one
+		err = os.Link(tmp, path)
+		if err != nil {
+			fail("[SaveEnvToFile] link env file '%s' to '%s' failed: %v",
+				tmp, path, err)
+		}
+		os.Remove(tmp)
+		return
+	}
 	err = os.Rename(tmp, path)
 	if err != nil {
 		fail("[SaveEnvToFile] rename env file '%s' to '%s' failed: %v",
@@ -100,6 +110,15 @@ func saveEnvToFile(env *Env, path string, sep string, filtered []string, skipDef
 }
 
 func SaveEnvToFile(env *Env, path string, sep string, skipDefault bool) {
+	saveUserEnvToFile(env, path, sep, skipDefault, true)
+}
+
+// Fails if the file exists
+func SaveEnvToNewFile(env *Env, path string, sep string, skipDefault bool) {
+	saveUserEnvToFile(env, path, sep, skipDefault, false)
+}
+
+func saveUserEnvToFile(env *Env, path string, sep string, skipDefault bool, overwrite bool) {
 	// TODO: move to default config
 	filtered := []string{
 		"session",
@@ -116,7 +135,7 @@ func SaveEnvToFile(env *Env, path string, sep string, skipDefault bool) {
 		"sys.event.",
 		"sys.paths.",
 	}
-	saveEnvToFile(env, path, sep, filtered, skipDefault)
+	saveEnvToFile(env, path, sep, filtered, skipDefault, overwrite)
 }
 
 func LoadEnvFromFile(env *Env, path string, sep string, delMark string) {
@@ -157,6 +176,6 @@ func saveEnvToSessionFile(cc *Cli, env *Env, parsedCmd ParsedCmd, skipDefault bo
 		//"sys.session.",
 		//"sys.interact",
 	}
-	saveEnvToFile(env.GetLayer(EnvLayerSession), sessionPath, sep, filtered, skipDefault)
+	saveEnvToFile(env.GetLayer(EnvLayerSession), sessionPath, sep, filtered, skipDefault, true)
 	return
 }
diff --git a/pkg/mods/builtin/env_snapshot.go b/pkg/mods/builtin/env_snapshot.go
index 1f73c0d..65f1892 100644
--- a/pkg/mods/builtin/env_snapshot.go
+++ b/pkg/mods/builtin/env_snapshot.go
@@ -30,7 +30,11 @@ func EnvSaveToSnapshot(
 		panic(model.NewCmdError(cmd, "env snapshot '"+name+"' already exists"))
 	}
 
-	model.SaveEnvToFile(env, path, kvSep, true)
+	if overwrite {
+		model.SaveEnvToFile(env, path, kvSep, true)
+	} else {
+		model.SaveEnvToNewFile(env, path, kvSep, true)
+	}
 	display.PrintTipTitle(cc.Screen, env,
 		"session env are saved to snapshot '"+name+"', could be use by:",
 		"",
-- 
2.43.0


From 4eaf3e27c4cc1a0da198bee576553e28872040ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 08/62] fix: save flow files whole or not at all

---
 pkg/mods/persist/meta_file/meta_file.go | 49 ++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 6ae526d..3085cca 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"io/ioutil"
 	"os"
+	"path/filepath"
 	"strings"
 )
 
@@ -247,18 +248,45 @@ func (self *MetaFile) parse(lines []string) {
 }
 
 func (self *MetaFile) Save() {
-	file, err := os.OpenFile(self.path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	// Write to a tmp file first, so there is always a complete file, the old one or the new one
+	file, err := ioutil.TempFile(filepath.Dir(self.path), filepath.Base(self.path)+".*.tmp")
 	if err != nil {
-		panic(fmt.Errorf("[MetaFile.Save] open mod meta file '%s' for save failed: %v",
+		panic(fmt.Errorf("[MetaFile.Save] create tmp file for mod meta file '%s' failed: %v",
 			self.path, err))
 	}
-	defer file.Close()
-	self.save(file)
+	tmp := file.Name()
+
+	buf := bytes.NewBuffer(nil)
+	self.save(buf)
+	_, err = file.Write(buf.Bytes())
+	if err == nil {
+		err = file.Chmod(0644)
+	}
+	closeErr := file.Close()
+	if err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmp, self.path)
+	}
+	if err != nil {
+		os.Remove(tmp)
+		panic(fmt.Errorf("[MetaFile.Save] save mod meta file '%s' failed: %v", self.path, err))
+	}
 }
 
 func (self *MetaFile) save(w io.Writer) {
-	saveKey := func(key string, val string) (multiLine bool) {
+	saveKey := func(name string, key string, val string) (multiLine bool) {
 		lines := strings.Split(val, self.lineSep)
+		if name == GlobalSectionName && hasLineEndsWithBreaker(lines) {
+			// In the normal format the line and the next one would be joined when it's read
+			fmt.Fprintf(w, "%c%s/%c\n", SectionBracketLeft, key, SectionBracketRight)
+			for _, line := range lines {
+				fmt.Fprintf(w, "    %s\n", line)
+			}
+			fmt.Fprintf(w, "%c/%s%c\n", SectionBracketLeft, key, SectionBracketRight)
+			return true
+		}
 		if len(lines) == 1 {
 			fmt.Fprintf(w, "%s %s %s\n", key, self.kvSep, val)
 			return false
@@ -283,7 +311,7 @@ func (self *MetaFile) save(w io.Writer) {
 			fmt.Fprintf(w, "%c%s%c\n", SectionBracketLeft, name, SectionBracketRight)
 		}
 		for j, key := range keys {
-			multiLine := saveKey(key, section.GetUnTrim(key))
+			multiLine := saveKey(name, key, section.GetUnTrim(key))
 			if multiLine && j != len(keys)-1 {
 				fmt.Fprintf(w, "\n")
 			}
@@ -294,6 +322,15 @@ func (self *MetaFile) save(w io.Writer) {
 	}
 }
 
+func hasLineEndsWithBreaker(lines []string) bool {
+	for _, line := range lines {
+		if strings.HasSuffix(line, string(MultiLineBreaker)) {
+			return true
+		}
+	}
+	return false
+}
+
 type SectionMap map[string]*Section
 
 type Section struct {
-- 
2.43.0


From 333e4aca5c54fed579d64f214478edc95554a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 09/62] fix: save flows with values having chars special to
 shellwords

---
 pkg/core/model/flow.go |  6 +++---
 pkg/utils/misc.go      | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/core/model/flow.go b/pkg/core/model/flow.go
index 5bbb3b8..5bb7a41 100644
--- a/pkg/core/model/flow.go
+++ b/pkg/core/model/flow.go
@@ -133,9 +133,9 @@ func normalizeEnvVal(v string, seqSep string) string {
 			i += len(seqSep)
 			continue
 		}
-		// NOTE: shellwords in 'cmd.go#FlowStrToStrs' will eat the single '\', so double '\\' is needed
-		v = v[0:i] + BackSlash + BackSlash + seqSep + v[i+len(seqSep):]
-		i += len(BackSlash)*2 + len(seqSep)
+		// NOTE: shellwords in 'cmd.go#FlowStrToStrs' will eat the unquoted '\', so the value must be quoted
+		v = v[0:i] + BackSlash + seqSep + v[i+len(seqSep):]
+		i += len(BackSlash) + len(seqSep)
 	}
 	return v
 }
diff --git a/pkg/utils/misc.go b/pkg/utils/misc.go
index c7838d6..776e257 100644
--- a/pkg/utils/misc.go
+++ b/pkg/utils/misc.go
@@ -143,19 +143,19 @@ func NormalizeDurStr(durStr string) string {
 	return durStr
 }
 
+// Also quote strings having other chars which are special to 'shellwords',
+// it's how the strings will be parsed
 func QuoteStrIfHasSpace(str string) string {
-	if strings.IndexAny(str, " \t\r\n") < 0 {
+	if strings.IndexAny(str, " \t\r\n\\\"'`;&|<>()") < 0 {
 		return str
 	}
-	i := strings.Index(str, "\"")
-	if i < 0 {
+	if strings.IndexAny(str, "\"\\") < 0 {
 		return "\"" + str + "\""
 	}
-	i = strings.Index(str, "'")
-	if i < 0 {
+	if strings.Index(str, "'") < 0 {
 		return "'" + str + "'"
 	}
-	return str
+	return "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(str) + "\""
 }
 
 // TODO: may not right, use PidExists to do that
-- 
2.43.0


From ecd922f9ac5be4b6e18301d092c87eeb2e066502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 10/62] fix: don't lose flows by renaming or moving others onto
 them

---
 pkg/mods/builtin/flow.go | 13 +++++++++++++
 pkg/mods/builtin/hub.go  |  7 +++++++
 2 files changed, 20 insertions(+)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 2855106..4c31247 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -110,6 +110,19 @@ func RenameFlow(
 			fmt.Sprintf("path '%s' does not exist", srcFilePath)))
 	}
 
+	_, err = os.Lstat(destFilePath)
+	if srcFilePath != destFilePath && !os.IsNotExist(err) {
+		if !env.GetBool("sys.confirm.ask") {
+			panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+				fmt.Sprintf("path '%s' exists", destFilePath)))
+		}
+		cc.Screen.Print(fmt.Sprintf(display.ColorTip("[confirm]", env)+
+			" flow file of '%s' exists, "+
+			"type "+display.ColorWarn("'y'", env)+" and press enter to "+
+			display.ColorWarn("overwrite:", env)+"\n", argDestCmdPath))
+		utils.UserConfirm()
+	}
+
 	err = os.Rename(srcFilePath, destFilePath)
 	if err != nil {
 		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 92a6d28..ad3fef6 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -764,6 +764,13 @@ func moveSavedFlowsToLocalDir(toDir string, cc *model.Cli, env *model.Env, cmd m
 
 		// This dir is managed, so will be no sub-dir
 		destPath := filepath.Join(toDir, filepath.Base(path))
+		destInfo, err := os.Lstat(destPath)
+		if err == nil {
+			if os.SameFile(info, destInfo) {
+				return nil
+			}
+			panic(model.NewCmdError(cmd, fmt.Sprintf("can't move file '%s', '%s' exists", path, destPath)))
+		}
 
 		err = utils.MoveFile(path, destPath)
 		if err != nil {
-- 
2.43.0


From 8c382e92eed94dc2300c053aa92248102bc0e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 11/62] fix: report hub files which can't be read, write them
 by a tmp file of its own

---
 pkg/mods/persist/hub_meta/hub_meta.go | 33 ++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index a8520be..e236fff 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -3,6 +3,7 @@ package hub_meta
 import (
 	"bufio"
 	"fmt"
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -51,26 +52,38 @@ func WriteReposInfoFile(
 	infos []RepoInfo, sep string) {
 
 	os.MkdirAll(filepath.Dir(path), os.ModePerm)
-	tmp := path + ".tmp"
-	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	// Each writing uses its own tmp file, there may be others writing
+	file, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".*.tmp")
 	if err != nil {
-		panic(fmt.Errorf("[WriteReposInfoFile] open file '%s' failed: %v", tmp, err))
+		panic(fmt.Errorf("[WriteReposInfoFile] create tmp file for '%s' failed: %v", path, err))
+	}
+	tmp := file.Name()
+	fail := func(format string, a ...interface{}) {
+		file.Close()
+		os.Remove(tmp)
+		panic(fmt.Errorf(format, a...))
 	}
-	defer file.Close()
 
 	for _, info := range infos {
 		_, err = fmt.Fprintf(file, "%s%s%s%s%s%s%s%s%s\n", info.Addr.Str(), sep, info.AddReason, sep,
 			tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, info.HelpStr, sep, info.OnOff)
 		if err != nil {
-			panic(fmt.Errorf("[WriteReposInfoFile] write file '%s' failed: %v", tmp, err))
+			fail("[WriteReposInfoFile] write file '%s' failed: %v", tmp, err)
 		}
 	}
-	file.Close()
+	err = file.Chmod(0644)
+	if err != nil {
+		fail("[WriteReposInfoFile] set mode of file '%s' failed: %v", tmp, err)
+	}
+	err = file.Close()
+	if err != nil {
+		fail("[WriteReposInfoFile] close file '%s' failed: %v", tmp, err)
+	}
 
 	err = os.Rename(tmp, path)
 	if err != nil {
-		panic(fmt.Errorf("[WriteReposInfoFile] rename file '%s' to '%s' failed: %v",
-			tmp, path, err))
+		fail("[WriteReposInfoFile] rename file '%s' to '%s' failed: %v",
+			tmp, path, err)
 	}
 }
 
@@ -110,6 +123,10 @@ func ReadReposInfoFile(
 		infos = append(infos, info)
 		list[info.Addr.Str()] = true
 	}
+	err = scanner.Err()
+	if err != nil {
+		panic(fmt.Errorf("[ReadReposInfoFile] read file '%s' failed: %v", path, err))
+	}
 	return
 }
 
-- 
2.43.0


From 7c075f16ef5c791e6443f21d903c9f5c99b73586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 12/62] fix: don't let a broken flow, help file or dir stop
 ticat from starting

---
 pkg/core/model/args_auto_map.go | 25 +++++++++++++++++++++++--
 pkg/core/model/helps.go         | 13 +++++++++++--
 pkg/mods/builtin/flow.go        |  3 +++
 pkg/mods/builtin/mod.go         | 11 ++++++++++-
 4 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/pkg/core/model/args_auto_map.go b/pkg/core/model/args_auto_map.go
index 6a1e9e7..0ced544 100644
--- a/pkg/core/model/args_auto_map.go
+++ b/pkg/core/model/args_auto_map.go
@@ -16,11 +16,32 @@ func (self Arg2EnvAutoMapCmds) AutoMapArg2Env(cc *Cli, env *Env, envOpCmds []Env
 	sep := env.GetRaw("strs.cmd-path-sep")
 	for cmd, _ := range self {
 		argv := env.GetArgv(cmd.Owner().Path(), sep, stackDepth, cmd.Args())
-		autoMapArg2EnvForCmd(cc, env.Clone(), cmd, argv, envOpCmds, cmd, stackDepth)
-		cmd.FinishArg2EnvAutoMap(cc)
+		tryAutoMapArg2EnvForCmd(cc, env, cmd, argv, envOpCmds, stackDepth)
 	}
 }
 
+// A broken flow should not affect the others
+func tryAutoMapArg2EnvForCmd(
+	cc *Cli,
+	env *Env,
+	cmd *Cmd,
+	argv ArgVals,
+	envOpCmds []EnvOpCmd,
+	stackDepth int) {
+
+	defer func() {
+		if !env.GetBool("sys.panic.recover") {
+			return
+		}
+		if err := recover(); err != nil {
+			cc.TolerableErrs.OnErr(err, cmd.Owner().Source(), cmd.MetaFile(), "arg2env auto mapping failed")
+		}
+	}()
+
+	autoMapArg2EnvForCmd(cc, env.Clone(), cmd, argv, envOpCmds, cmd, stackDepth)
+	cmd.FinishArg2EnvAutoMap(cc)
+}
+
 func autoMapArg2EnvForCmd(
 	cc *Cli,
 	env *Env,
diff --git a/pkg/core/model/helps.go b/pkg/core/model/helps.go
index 0d7be08..e7d3120 100644
--- a/pkg/core/model/helps.go
+++ b/pkg/core/model/helps.go
@@ -19,10 +19,10 @@ func NewHelps() *Helps {
 	return &Helps{nil}
 }
 
-func (self *Helps) RegHelpFile(path string) {
+func (self *Helps) RegHelpFile(path string) error {
 	file, err := os.Open(path)
 	if err != nil {
-		panic(fmt.Errorf("read help file failed: %v", err))
+		return fmt.Errorf("read help file failed: %v", err)
 	}
 	defer file.Close()
 
@@ -33,7 +33,16 @@ func (self *Helps) RegHelpFile(path string) {
 		lines = append(lines, scanner.Text())
 	}
 
+	err = scanner.Err()
+	if err != nil {
+		return fmt.Errorf("read help file failed: %v", err)
+	}
+	if len(lines) == 0 {
+		return fmt.Errorf("help file is empty")
+	}
+
 	self.RegHelp(lines[0], lines[1:])
+	return nil
 }
 
 func (self *Helps) RegHelp(title string, text []string) {
diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 4c31247..4478712 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -380,6 +380,9 @@ func loadFlowsFromDir(
 
 	filepath.Walk(root, func(path string, info fs.FileInfo, err error) error {
 		if err != nil {
+			if !os.IsNotExist(err) {
+				cc.TolerableErrs.OnErr(err, source, path, "flow loading failed")
+			}
 			return nil
 		}
 		if info.IsDir() {
diff --git a/pkg/mods/builtin/mod.go b/pkg/mods/builtin/mod.go
index 0482ded..db23bb2 100644
--- a/pkg/mods/builtin/mod.go
+++ b/pkg/mods/builtin/mod.go
@@ -45,6 +45,12 @@ func loadLocalMods(
 
 	// TODO: return filepath.SkipDir to avoid some non-sense scanning
 	filepath.Walk(root, func(metaPath string, info fs.FileInfo, err error) error {
+		if err != nil {
+			if !os.IsNotExist(err) {
+				cc.TolerableErrs.OnErr(err, source, metaPath, "module loading failed")
+			}
+			return nil
+		}
 		if info != nil && info.IsDir() {
 			// Skip hidden file or dir
 			base := filepath.Base(metaPath)
@@ -58,7 +64,10 @@ func loadLocalMods(
 		}
 
 		if strings.HasSuffix(metaPath, helpExt) {
-			cc.Helps.RegHelpFile(metaPath)
+			err := cc.Helps.RegHelpFile(metaPath)
+			if err != nil {
+				cc.TolerableErrs.OnErr(err, source, metaPath, "help file loading failed")
+			}
 			return nil
 		}
 
-- 
2.43.0


From 2fd4edf02edca3494e5b736ee0e8dd6363670ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 13/62] fix: don't list repos which are referred more than once
 twice in hub

---
 pkg/mods/builtin/hub.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index ad3fef6..4faba50 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -314,6 +314,7 @@ func UpdateHub(
 			if oldList[addr.Str()] {
 				continue
 			}
+			oldList[addr.Str()] = true
 			repoPath := meta.GetRepoPath(path, addr)
 			infos = append(infos, meta.RepoInfo{addr, info.Addr.Str(), repoPath, helpStrs[i], "on"})
 		}
@@ -839,6 +840,7 @@ func addRepoToHubAndLoadMods(
 		if oldList[addr.Str()] {
 			continue
 		}
+		oldList[addr.Str()] = true
 		repoPath := meta.GetRepoPath(path, addr)
 		info := meta.RepoInfo{addr, gitAddr.Str(), repoPath, helpStrs[i], "on"}
 		loadRepoMods(cc, env, info)
-- 
2.43.0


From 1279923be34a6612a6ce8aeafcde2624587aeeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 14/62] fix: don't drop an enabled repo from hub when purging
 others

---
 pkg/mods/builtin/hub.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 4faba50..631fc69 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -646,7 +646,8 @@ func exactMatchHubRepo(infos []meta.RepoInfo, findStrs ...string) (info meta.Rep
 	}
 	for i, info := range infos {
 		if info.Addr.Str() == findStr {
-			return info, append(infos[:i], infos[i+1:]...), true
+			rest = append(rest, infos[:i]...)
+			return info, append(rest, infos[i+1:]...), true
 		}
 	}
 	return
-- 
2.43.0


From a09ae3598a40c97f05e6dfe03b98b2ad01bd680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 15/62] fix: don't leave incomplete repos when cloning is
 failed or killed

---
 pkg/mods/persist/hub_meta/hub_repo.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/persist/hub_meta/hub_repo.go b/pkg/mods/persist/hub_meta/hub_repo.go
index f845216..bc98f02 100644
--- a/pkg/mods/persist/hub_meta/hub_repo.go
+++ b/pkg/mods/persist/hub_meta/hub_repo.go
@@ -145,6 +145,7 @@ func updateRepoAndReadSubList(
 
 	stat, err := os.Stat(repoPath)
 	var pwd string
+	var clonePath string
 	if !os.IsNotExist(err) {
 		if !stat.IsDir() {
 			panic(model.WrapCmdError(cmd, fmt.Errorf("repo path '%v' exists but is not dir",
@@ -161,7 +162,13 @@ func updateRepoAndReadSubList(
 		if len(gitAddr.Branch) != 0 {
 			cmdStrs = append(cmdStrs, "-b", gitAddr.Branch)
 		}
-		cmdStrs = append(cmdStrs, repoPath)
+		// A failed or killed 'clone' may leave an incomplete dir, it should not be at the repo path
+		clonePath = fmt.Sprintf("%s.cloning.%d", repoPath, os.Getpid())
+		err = os.RemoveAll(clonePath)
+		if err != nil {
+			panic(model.WrapCmdError(cmd, fmt.Errorf("remove '%s' failed: %v", clonePath, err)))
+		}
+		cmdStrs = append(cmdStrs, clonePath)
 	}
 
 	c := exec.Command(cmdStrs[0], cmdStrs[1:]...)
@@ -172,8 +179,18 @@ func updateRepoAndReadSubList(
 	c.Stderr = os.Stderr
 	err = c.Run()
 	if err != nil {
+		if len(clonePath) != 0 {
+			os.RemoveAll(clonePath)
+		}
 		panic(model.WrapCmdError(cmd, fmt.Errorf("run '%v' failed: %v", cmdStrs, err)))
 	}
+	if len(clonePath) != 0 {
+		err = os.Rename(clonePath, repoPath)
+		if err != nil {
+			os.RemoveAll(clonePath)
+			panic(model.WrapCmdError(cmd, fmt.Errorf("rename '%s' to '%s' failed: %v", clonePath, repoPath, err)))
+		}
+	}
 	listFilePath := filepath.Join(repoPath, listFileName)
 	return ReadRepoListFromFile(selfName, listFilePath)
 }
-- 
2.43.0


From d3e286d7371b6a55844a32adb31a9f08e3aada45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 16/62] fix: don't write hub files which can't be read back

---
 pkg/mods/persist/hub_meta/hub_meta.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index e236fff..dfaeba8 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -51,6 +51,21 @@ func WriteReposInfoFile(
 	path string,
 	infos []RepoInfo, sep string) {
 
+	lines := []string{}
+	for _, info := range infos {
+		// A line break or a sep in any field makes the file unreadable
+		helpStr := strings.NewReplacer("\n", " ", "\r", " ", sep, " ").Replace(info.HelpStr)
+		fields := []string{info.Addr.Str(), info.AddReason,
+			tryConvAbsPathToRelPath(hubRootPath, info.Path), helpStr, info.OnOff}
+		for _, field := range fields {
+			if strings.ContainsAny(field, "\n\r") || strings.Contains(field, sep) {
+				panic(fmt.Errorf("[WriteReposInfoFile] can't save '%s' to file '%s': "+
+					"has line breaks or tabs", field, path))
+			}
+		}
+		lines = append(lines, strings.Join(fields, sep))
+	}
+
 	os.MkdirAll(filepath.Dir(path), os.ModePerm)
 	// Each writing uses its own tmp file, there may be others writing
 	file, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".*.tmp")
@@ -64,9 +79,8 @@ func WriteReposInfoFile(
 		panic(fmt.Errorf(format, a...))
 	}
 
-	for _, info := range infos {
-		_, err = fmt.Fprintf(file, "%s%s%s%s%s%s%s%s%s\n", info.Addr.Str(), sep, info.AddReason, sep,
-			tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, info.HelpStr, sep, info.OnOff)
+	for _, line := range lines {
+		_, err = fmt.Fprintf(file, "%s\n", line)
 		if err != nil {
 			fail("[WriteReposInfoFile] write file '%s' failed: %v", tmp, err)
 		}
-- 
2.43.0


From 85ccbc9293a267c4eb7ac823f02af1aa77ea981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 17/62] fix: don't delete a repo's dir which is also used by
 others in hub

---
 pkg/mods/builtin/hub.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 631fc69..f70e654 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -720,8 +720,16 @@ func purgeInactiveRepoFromHub(findStr string, cc *model.Cli, env *model.Env, cmd
 	var unlinkeds int
 	var removeds int
 
+	// Addresses may only differ in protocol or letter case, then they share a path
+	inUse := map[string]bool{}
+	for _, info := range rest {
+		inUse[info.Path] = true
+	}
+
 	for _, info := range extracted {
-		if !info.IsLocal() {
+		if inUse[info.Path] {
+			unlinkeds += 1
+		} else if !info.IsLocal() {
 			osRemoveDir(info.Path, cmd)
 			removeds += 1
 		} else {
-- 
2.43.0


From 50d897c4e895b51c2b53ed808d8d582343fd26f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 18/62] fix: record a failed command as failed even if its
 error is allowed

---
 pkg/core/model/cmd.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index da12e79..5c96def 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -1070,7 +1070,8 @@ func (self *Cmd) executeFile(argv ArgVals, cc *Cli, env *Env, allowError bool, p
 		sessionEnv.Set("sys.stack", stack)
 		sessionEnv.Set("sys.stack-depth", stackDepth)
 	}
-	return true
+	// It's still a failed command even if the error is allowed
+	return err == nil
 }
 
 func (self *Cmd) checkCanAddArgFromAnotherArg(srcArgs Args, name string) (defVal string, abbrs []string, ok bool) {
-- 
2.43.0


From aac5e34d0175750f66eba9c372e6f9b14425f00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 19/62] fix: record commands skipped by user as skipped

---
 pkg/core/model/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 5c96def..e297ef8 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -1107,5 +1107,5 @@ func shouldExecByMask(mask *ExecuteMask) bool {
 }
 
 func executedAndSucceeded(mask *ExecuteMask) bool {
-	return (mask != nil || mask.ResultIfExecuted == ExecutedResultSucceeded)
+	return (mask != nil && mask.ResultIfExecuted == ExecutedResultSucceeded)
 }
-- 
2.43.0


From f555012e10f5b8850b85b30c70728ff8b24177b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 20/62] fix: keep session status readable when there are line
 breaks in flows or env values

---
 pkg/core/model/executed.go  |  3 ++-
 pkg/core/model/executing.go | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index db692b3..3db2008 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -221,6 +221,7 @@ func tryParseExecutedFlow(path ExecutedStatusFilePath, lines []string,
 	if !ok {
 		return executed, hasDelayCmd, lines, lastActiveTs, false
 	}
+	executed.Flow = unescapeStatusLine(executed.Flow)
 	executed.StartTs, lines, ok = parseMarkedTime(path, lines, "flow-start-time", level)
 	if !ok {
 		return executed, hasDelayCmd, lines, lastActiveTs, false
@@ -400,7 +401,7 @@ func parseEnvLines(path ExecutedStatusFilePath, lines []string, level int) (env
 		if !strings.HasPrefix(line, indent) {
 			panic(fmt.Errorf("[ParseExecutedFlow] bad indent of env line '%s' in status file '%s'", line, path.Short()))
 		}
-		line = line[len(indent):]
+		line = unescapeStatusLine(line[len(indent):])
 		i := strings.Index(line, "=")
 		if i <= 0 {
 			panic(fmt.Errorf("[ParseExecutedFlow] bad format of env line '%s' in status file '%s'", line, path.Short()))
diff --git a/pkg/core/model/executing.go b/pkg/core/model/executing.go
index 0bdeaea..f5a8f65 100644
--- a/pkg/core/model/executing.go
+++ b/pkg/core/model/executing.go
@@ -39,7 +39,7 @@ func (self *ExecutingFlow) onFlowStart(flow *ParsedCmds, env *Env) {
 	trivialMark := env.GetRaw("strs.trivial-mark")
 	cmdPathSep := env.GetRaw("strs.cmd-path-sep")
 	flowStr := SaveFlowToStr(flow, cmdPathSep, trivialMark, env)
-	buf.Write([]byte(markedContent("flow", 0, flowStr)))
+	buf.Write([]byte(markedContent("flow", 0, escapeStatusLine(flowStr))))
 
 	now := time.Now().Format(SessionTimeFormat)
 	buf.Write([]byte(markedOneLineContent("flow-start-time", self.level, now)))
@@ -128,7 +128,7 @@ func (self *ExecutingFlow) OnSubFlowStart(env *Env, flow string) {
 
 	self.level += 1
 
-	content += markedContent("flow", self.level, flow)
+	content += markedContent("flow", self.level, escapeStatusLine(flow))
 
 	now := time.Now().Format(SessionTimeFormat)
 	content += markedOneLineContent("flow-start-time", self.level, now)
@@ -196,7 +196,7 @@ func writeCmdEnv(w io.Writer, env *Env, mark string, level int) {
 	buf := bytes.NewBuffer(nil)
 	indent := strings.Repeat(StatusFileIndent, level)
 	for k, v := range kvs {
-		fprintf(buf, "%s%s=%s\n", indent, k, v)
+		fprintf(buf, "%s%s\n", indent, escapeStatusLine(k+"="+v))
 	}
 	if len(kvs) > 0 {
 		fprintf(w, "%s\n%s%s\n", markStartStr(mark, level), buf.String(), markFinishStr(mark, level))
@@ -260,6 +260,15 @@ func markFinishStr(mark string, level int) string {
 		StatusFileMarkFinishMark + mark + StatusFileMarkBracketRight
 }
 
+// A flow or a key-value must be in one line, or the status file can't be read
+func escapeStatusLine(line string) string {
+	return strings.NewReplacer("\\", "\\\\", "\n", "\\n", "\r", "\\r").Replace(line)
+}
+
+func unescapeStatusLine(line string) string {
+	return strings.NewReplacer("\\\\", "\\", "\\n", "\n", "\\r", "\r").Replace(line)
+}
+
 const (
 	StatusFileMarkBracketLeft  = "<"
 	StatusFileMarkBracketRight = ">"
-- 
2.43.0


From fb8bc98f9d558dc8c13580d4fa51b87ad2c39a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 21/62] fix: don't lose commands failed inside an allowed error
 in showing session status

---
 pkg/core/model/executed.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index 3db2008..83cffba 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -261,6 +261,10 @@ func parseExecutedCmds(path ExecutedStatusFilePath, lines []string,
 		}
 		if !ok {
 			if _, _, ok := parseMarkedOneLineContent(path, lines, "flow-finish-time", level); ok {
+				// The cmd failed by an error inside it, and it's allowed by an outer cmd
+				if cmd != nil {
+					cmds = append(cmds, cmd)
+				}
 				break
 			}
 			if len(lines) != 0 {
-- 
2.43.0


From bd2dd28a9a4839c1611b68c2db8290a3765eef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 22/62] fix: don't treat a succeeded flow as failed in status
 because of allowed errors

---
 pkg/core/model/executed.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index 83cffba..864c1c8 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -36,6 +36,9 @@ type ExecutedCmd struct {
 	FinishTs    time.Time
 	Result      ExecutedResult
 	ErrStrs     []string
+
+	// Failed by itself, not by an async task inside it
+	failed bool
 }
 
 func NewExecutedCmd(cmd string) *ExecutedCmd {
@@ -192,6 +195,10 @@ func (self *ExecutedFlow) CalResultInCaseIncompleted() {
 		return
 	}
 	for _, cmd := range self.Cmds {
+		if cmd.failed && self.Result == ExecutedResultSucceeded {
+			// The error was allowed
+			continue
+		}
 		if cmd.Result == ExecutedResultError {
 			self.Result = cmd.Result
 			break
@@ -350,6 +357,7 @@ func parseExecutedCmd(path ExecutedStatusFilePath, lines []string,
 	lastActiveTs = cmd.FinishTs
 
 	cmd.Result, lines, ok = parseCmdOrFlowResult(path, lines, "cmd-result", level, ExecutedResultError)
+	cmd.failed = cmd.Result == ExecutedResultError
 	cmd.CalResultInCaseIncompleted()
 	if !ok {
 		return cmd, lines, lastActiveTs, false
-- 
2.43.0


From e048bb0b8fce40ae9ea66d8dfcc82c788d8bb71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 23/62] fix: retry the retried flow of a retry session, don't
 go into endless recursion

---
 pkg/mods/builtin/sessions.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/pkg/mods/builtin/sessions.go b/pkg/mods/builtin/sessions.go
index 5dbeb18..605c4e0 100644
--- a/pkg/mods/builtin/sessions.go
+++ b/pkg/mods/builtin/sessions.go
@@ -519,7 +519,7 @@ func SessionRetry(argv model.ArgVals, cc *model.Cli, env *model.Env) (flow []str
 	if len(sessions) > 1 {
 		panic(fmt.Errorf("[SessionRetry] should never happen"))
 	}
-	return retrySession(sessions[0], false)
+	return retrySession(cc, sessions[0], false)
 }
 
 func LastSessionRetry(argv model.ArgVals, cc *model.Cli, env *model.Env) (flow []string, masks []*model.ExecuteMask, ok bool) {
@@ -527,7 +527,7 @@ func LastSessionRetry(argv model.ArgVals, cc *model.Cli, env *model.Env) (flow [
 	if !ok {
 		panic(fmt.Errorf("no executed sessions"))
 	}
-	return retrySession(session, false)
+	return retrySession(cc, session, false)
 }
 
 func LastErrorSessionRetry(argv model.ArgVals, cc *model.Cli, env *model.Env) (flow []string, masks []*model.ExecuteMask, ok bool) {
@@ -535,7 +535,7 @@ func LastErrorSessionRetry(argv model.ArgVals, cc *model.Cli, env *model.Env) (f
 	if !ok {
 		panic(fmt.Errorf("no executed sessions"))
 	}
-	return retrySession(session, false)
+	return retrySession(cc, session, false)
 }
 
 func findSessions(
@@ -671,6 +671,10 @@ func getLastSession(cc *model.Cli, env *model.Env, includeError bool, includeDon
 		if isSessionShouldHideInLast(cc, session) {
 			continue
 		}
+		if isRetrySession(cc, session.Status) && session.Status.Cmds[0].SubFlow == nil {
+			// Nothing was retried by it
+			continue
+		}
 		return session, true
 	}
 	return
@@ -689,11 +693,31 @@ func isSessionShouldHideInLast(cc *model.Cli, session model.SessionStatus) bool
 	return false
 }
 
-func retrySession(session model.SessionStatus, errSessionOnly bool) (flow []string, masks []*model.ExecuteMask, ok bool) {
+func isRetrySession(cc *model.Cli, status *model.ExecutedFlow) bool {
+	if len(status.Cmds) != 1 {
+		return false
+	}
+	parsedCmd, ok := cc.ParseCmd(false, model.FlowStrToStrs(status.Cmds[0].Cmd)...)
+	if !ok {
+		return false
+	}
+	switch strings.Join(parsedCmd.Path(), ".") {
+	case "sessions.retry", "sessions.last.retry", "sessions.error.retry":
+		return true
+	}
+	return false
+}
+
+func retrySession(cc *model.Cli, session model.SessionStatus, errSessionOnly bool) (flow []string, masks []*model.ExecuteMask, ok bool) {
 	if errSessionOnly && session.Status != nil && session.Status.Result == model.ExecutedResultSucceeded {
 		panic(fmt.Errorf("session [%s] had succeeded, nothing to retry", session.DirName))
 	}
-	return []string{session.Status.Flow}, session.Status.GenExecMasks(), true
+	status := session.Status
+	// Retry the flow retried by the session, what 'the last session' means could be changed
+	for isRetrySession(cc, status) && status.Cmds[0].SubFlow != nil {
+		status = status.Cmds[0].SubFlow
+	}
+	return []string{status.Flow}, status.GenExecMasks(), true
 }
 
 func normalizeSid(id string) string {
-- 
2.43.0


From 974b1a325a174b20aa85dc49250be18cfe111288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:46 +0000
Subject: [PATCH 24/62] fix: don't run succeeded background commands again when
 retrying

---
 pkg/core/model/executed.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index 864c1c8..4fe749e 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -133,6 +133,11 @@ func ParseExecutedFlow(path ExecutedStatusFilePath) (lastActiveTs time.Time, exe
 
 func (self *ExecutedFlow) GenExecMasks() (masks []*ExecuteMask) {
 	for _, cmd := range self.Cmds {
+		if cmd.IsDelay {
+			// The sub flow of an async task has the task itself and nothing else
+			masks = append(masks, cmd.SubFlow.GenExecMasks()...)
+			continue
+		}
 		var subMasks []*ExecuteMask
 		if cmd.SubFlow != nil {
 			subMasks = cmd.SubFlow.GenExecMasks()
-- 
2.43.0


From 0b17751670756c12129b29f09bc1a272292db693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 25/62] fix: keep the commands around the torn one when reading
 session status

---
 pkg/core/model/executed.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index 4fe749e..c64c815 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -280,13 +280,17 @@ func parseExecutedCmds(path ExecutedStatusFilePath, lines []string,
 				break
 			}
 			if len(lines) != 0 {
+				if cmd != nil {
+					// The rest of the file is corrupted, it's still the one being executed
+					cmds = append(cmds, cmd)
+				}
 				return cmds, hasDelayCmd, lines, lastActiveTs, false
 			}
 		}
-		if cmd.IsDelay {
-			hasDelayCmd = true
-		}
 		if cmd != nil {
+			if cmd.IsDelay {
+				hasDelayCmd = true
+			}
 			cmds = append(cmds, cmd)
 		}
 	}
-- 
2.43.0


From 25619beb9c8056a2e71441e5a036fc34f91e70ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 26/62] fix: hand the values for one command or subflow to its
 scripts

---
 pkg/core/model/cmd.go   |  2 +-
 pkg/core/model/env.go   | 16 ++++++++++++++++
 pkg/core/model/proto.go | 32 +++++++++++++++++++++++++++++++-
 3 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index e297ef8..a2f2c59 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -1065,7 +1065,7 @@ func (self *Cmd) executeFile(argv ArgVals, cc *Cli, env *Env, allowError bool, p
 		sessionEnv := env.GetLayer(EnvLayerSession)
 		stack := sessionEnv.GetRaw("sys.stack")
 		stackDepth := sessionEnv.GetRaw("sys.stack-depth")
-		LoadEnvFromFile(sessionEnv, sessionPath, sep, delMark)
+		loadEnvFromSessionFile(env, sessionPath, sep, delMark)
 		// The stack in the file could be the one of a ticat called by the script
 		sessionEnv.Set("sys.stack", stack)
 		sessionEnv.Set("sys.stack-depth", stackDepth)
diff --git a/pkg/core/model/env.go b/pkg/core/model/env.go
index 9aa42db..0e086fb 100644
--- a/pkg/core/model/env.go
+++ b/pkg/core/model/env.go
@@ -172,6 +172,22 @@ func (self *Env) Set(name string, val string) (old EnvVal) {
 	return self.SetEx(name, val, false, false)
 }
 
+// The key-values (not args) only for the current command or subflow: those in the layers above the session
+func (self *Env) localPairs() map[string]EnvVal {
+	locals := map[string]EnvVal{}
+	for env := self; env != nil && env.ty != EnvLayerSession; env = env.parent {
+		for k, v := range env.pairs {
+			if _, ok := locals[k]; !ok && !v.IsArg && !v.IsSysArg {
+				locals[k] = v
+			}
+		}
+	}
+	// These are for displaying, set by ticat itself
+	delete(locals, "sys.subflow")
+	delete(locals, "display.executor.displayed")
+	return locals
+}
+
 func (self *Env) SetIfEmpty(name string, val string) (old EnvVal) {
 	var exists bool
 	old, exists = self.GetEx(name)
diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index b906b6b..621322b 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -176,6 +176,36 @@ func saveEnvToSessionFile(cc *Cli, env *Env, parsedCmd ParsedCmd, skipDefault bo
 		//"sys.session.",
 		//"sys.interact",
 	}
-	saveEnvToFile(env.GetLayer(EnvLayerSession), sessionPath, sep, filtered, skipDefault, true)
+	// The file also has the values which are only for this command or the subflow
+	fileEnv := env.GetLayer(EnvLayerSession).NewLayer(EnvLayerCmd)
+	for k, v := range env.localPairs() {
+		fileEnv.Set(k, v.Raw)
+	}
+	saveEnvToFile(fileEnv, sessionPath, sep, filtered, skipDefault, true)
 	return
 }
+
+func loadEnvFromSessionFile(env *Env, path string, sep string, delMark string) {
+	session := env.GetLayer(EnvLayerSession)
+	locals := env.localPairs()
+	origin := map[string]EnvVal{}
+	for k, _ := range locals {
+		if v, ok := session.pairs[k]; ok {
+			origin[k] = v
+		}
+	}
+
+	LoadEnvFromFile(session, path, sep, delMark)
+
+	for k, v := range locals {
+		now, ok := session.GetEx(k)
+		if !ok || now.Raw != v.Raw {
+			// Changed by the executing, so it's for the whole session now
+			env.DeleteEx(k, EnvLayerSession)
+		} else if old, ok := origin[k]; ok {
+			session.pairs[k] = old
+		} else {
+			session.DeleteInSelfLayer(k)
+		}
+	}
+}
-- 
2.43.0


From 2f72458715960cad52dd4622680eb4b1e63409c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 27/62] fix: hand deleted env keys to and from nested ticat

---
 pkg/core/model/proto.go   | 12 ++++++++++++
 pkg/core/model/session.go | 11 +++++++++++
 2 files changed, 23 insertions(+)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 621322b..19abaaf 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -187,6 +187,18 @@ func saveEnvToSessionFile(cc *Cli, env *Env, parsedCmd ParsedCmd, skipDefault bo
 
 func loadEnvFromSessionFile(env *Env, path string, sep string, delMark string) {
 	session := env.GetLayer(EnvLayerSession)
+
+	loaded := NewEnv()
+	LoadEnvFromFile(loaded, path, sep, delMark)
+	if loaded.Has("session") {
+		// It has all key-values, could be rewritten by a ticat called by the script, so the absent ones were deleted
+		for k, _ := range session.FlattenAll() {
+			if !loaded.Has(k) {
+				session.Delete(k)
+			}
+		}
+	}
+
 	locals := env.localPairs()
 	origin := map[string]EnvVal{}
 	for k, _ := range locals {
diff --git a/pkg/core/model/session.go b/pkg/core/model/session.go
index d333351..0c35c51 100644
--- a/pkg/core/model/session.go
+++ b/pkg/core/model/session.go
@@ -177,6 +177,17 @@ func SessionInit(cc *Cli, flow *ParsedCmds, env *Env, sessionFileName string,
 
 	sessionPath := filepath.Join(sessionDir, sessionFileName)
 	if len(sessionDir) != 0 {
+		loaded := NewEnv()
+		LoadEnvFromFile(loaded, sessionPath, cc.Cmds.Strs.EnvKeyValSep, cc.Cmds.Strs.EnvValDelAllMark)
+		if len(loaded.pairs) != 0 {
+			// The session has all key-values of the caller, so the others were deleted in it
+			persisted := env.GetLayer(EnvLayerPersisted)
+			for k, _ := range persisted.pairs {
+				if !loaded.Has(k) {
+					persisted.DeleteInSelfLayer(k)
+				}
+			}
+		}
 		LoadEnvFromFile(env, sessionPath, cc.Cmds.Strs.EnvKeyValSep, cc.Cmds.Strs.EnvValDelAllMark)
 		// NOTE: treat recursive ticat call as non-ticat scripts, not record the executing status
 		//statusPath := filepath.Join(sessionDir, statusFileName)
-- 
2.43.0


From 7a4cdd463d3d951539794e66a0fb526dc9b88aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 28/62] fix: restore the env of skipped commands when retrying,
 leave out values for one command only

---
 pkg/core/model/cmd.go      | 58 ++++++++++++++++++++++++--------------
 pkg/core/model/env.go      |  9 ++++++
 pkg/core/model/executed.go |  7 ++++-
 3 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index a2f2c59..d94cb21 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -228,16 +228,8 @@ func (self *Cmd) execute(
 	currCmdIdx int,
 	tryBreakInsideFileNFlow func(*Cli, *Env, *Cmd) bool) (newCurrCmdIdx int, succeeded bool) {
 
-	// TODO: this logic should be in upper layer
-	if mask != nil && mask.OverWriteStartEnv != nil {
-		p := env
-		for p != nil && p.LayerType() != EnvLayerSession {
-			p.CleanCurrLayer()
-			p = p.Parent()
-		}
-		if p != nil {
-			mask.OverWriteStartEnv.WriteCurrLayerTo(p)
-		}
+	if mask != nil {
+		overWriteSessionEnv(env, nil, mask.OverWriteStartEnv)
 	}
 
 	logFilePath := self.genLogFilePath(env)
@@ -283,17 +275,6 @@ func (self *Cmd) execute(
 		}
 	}()
 
-	if mask != nil && mask.OverWriteFinishEnv != nil {
-		p := env
-		for p != nil && p.LayerType() != EnvLayerSession {
-			p.CleanCurrLayer()
-			p = p.Parent()
-		}
-		if p != nil {
-			mask.OverWriteFinishEnv.WriteCurrLayerTo(p)
-		}
-	}
-
 	disableQuietKey := "display.executor"
 	envSession := env.GetLayer(EnvLayerSession)
 	originQuiet := envSession.GetRaw(disableQuietKey)
@@ -325,6 +306,7 @@ func (self *Cmd) executeByType(
 	if !shouldExecByMask(mask) {
 		// TODO: print this outside core pkg, so it can be colorize
 		cc.Screen.Print("(skipped executing)\n")
+		overWriteSessionEnv(env, mask.OverWriteStartEnv, mask.OverWriteFinishEnv)
 		return currCmdIdx, true
 	}
 
@@ -355,6 +337,31 @@ func (self *Cmd) executeByType(
 	}
 }
 
+// Write recorded key-values to session env, except those only for the current command or subflow.
+// The keys in 'from' but not in 'to' were deleted in the recorded executing
+func overWriteSessionEnv(env *Env, from *Env, to *Env) {
+	if to == nil {
+		return
+	}
+	locals := env.localPairs()
+	var origin map[string]string
+	if from != nil {
+		origin = from.FlattenAll()
+	}
+	recorded := to.FlattenAll()
+	for k, v := range recorded {
+		val, ok := origin[k]
+		if _, isLocal := locals[k]; !isLocal || from != nil && (!ok || val != v) {
+			env.setToSession(k, v)
+		}
+	}
+	for k, _ := range origin {
+		if _, ok := recorded[k]; !ok {
+			env.Delete(k)
+		}
+	}
+}
+
 func (self *Cmd) HasSubFlow(includeQuietSubFlow bool) bool {
 	if !includeQuietSubFlow && self.flags.quietSubFlow {
 		return false
@@ -988,6 +995,15 @@ func (self *Cmd) executeFileNFlow(argv ArgVals, cc *Cli, env *Env, allowError bo
 
 	// TODO: print this outside core pkg, so it can be colorize
 	cc.Screen.Print("(skipped executing after subflow)\n")
+	if mask != nil && mask.FileNFlowExecPolicy != ExecPolicyExec {
+		from := mask.OverWriteStartEnv
+		for _, sub := range mask.SubFlow {
+			if sub.OverWriteFinishEnv != nil {
+				from = sub.OverWriteFinishEnv
+			}
+		}
+		overWriteSessionEnv(env, from, mask.OverWriteFinishEnv)
+	}
 	return true
 }
 
diff --git a/pkg/core/model/env.go b/pkg/core/model/env.go
index 0e086fb..043ec69 100644
--- a/pkg/core/model/env.go
+++ b/pkg/core/model/env.go
@@ -188,6 +188,15 @@ func (self *Env) localPairs() map[string]EnvVal {
 	return locals
 }
 
+// Set in session layer, the values in the layers above are replaced by this one
+func (self *Env) setToSession(name string, val string) {
+	env := self
+	for ; env.parent != nil && env.ty != EnvLayerSession; env = env.parent {
+		delete(env.pairs, name)
+	}
+	env.Set(name, val)
+}
+
 func (self *Env) SetIfEmpty(name string, val string) (old EnvVal) {
 	var exists bool
 	old, exists = self.GetEx(name)
diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index c64c815..9888772 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -144,7 +144,12 @@ func (self *ExecutedFlow) GenExecMasks() (masks []*ExecuteMask) {
 		}
 		policy := ExecPolicyExec
 		fileNFlowPolicy := ExecPolicyExec
+		finishEnv := cmd.FinishEnv
 		if cmd.Result == ExecutedResultSucceeded {
+			if finishEnv == nil {
+				// No key-values were left by it, so it's not in the status file
+				finishEnv = NewEnvEx(EnvLayerSession)
+			}
 			if cmd.SubFlow == nil {
 				policy = ExecPolicySkip
 			} else {
@@ -154,7 +159,7 @@ func (self *ExecutedFlow) GenExecMasks() (masks []*ExecuteMask) {
 		masks = append(masks, &ExecuteMask{
 			cmd.Cmd,
 			cmd.StartEnv,
-			cmd.FinishEnv,
+			finishEnv,
 			policy,
 			fileNFlowPolicy,
 			subMasks,
-- 
2.43.0


From 0e310ed15aad4397dacf9ca14269555919692695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 29/62] fix: wait for background commands in any order, more
 than once and with the same name

---
 pkg/core/model/bg_tasks.go   | 41 ++++++++++++++++++------------------
 pkg/mods/builtin/bg_tasks.go |  5 ++++-
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/pkg/core/model/bg_tasks.go b/pkg/core/model/bg_tasks.go
index 94f7839..588e40a 100644
--- a/pkg/core/model/bg_tasks.go
+++ b/pkg/core/model/bg_tasks.go
@@ -96,17 +96,19 @@ type BgTaskInfo struct {
 
 type BgTask struct {
 	info           BgTaskInfo
+	realName       string
 	stdout         *BgStdout
 	finishNotifier chan error
 	lock           sync.Mutex
 }
 
-func NewBgTask(tid string, cmd string, stdout *BgStdout) *BgTask {
+func NewBgTask(tid string, cmd string, realName string, stdout *BgStdout) *BgTask {
 	return &BgTask{
 		info: BgTaskInfo{
 			Tid: tid,
 			Cmd: cmd,
 		},
+		realName:       realName,
 		stdout:         stdout,
 		finishNotifier: make(chan error),
 	}
@@ -137,17 +139,15 @@ func (self *BgTask) WaitForFinish() error {
 }
 
 type BgTasks struct {
-	tids      []string
-	tasks     map[string]*BgTask
-	name2task map[string]*BgTask
-	lock      sync.Mutex
+	tids  []string
+	tasks map[string]*BgTask
+	lock  sync.Mutex
 }
 
 func NewBgTasks() *BgTasks {
 	return &BgTasks{
-		tids:      []string{},
-		tasks:     map[string]*BgTask{},
-		name2task: map[string]*BgTask{},
+		tids:  []string{},
+		tasks: map[string]*BgTask{},
 	}
 }
 
@@ -159,10 +159,8 @@ func (self *BgTasks) GetOrAddTask(tid string, displayName string, realName strin
 		return task
 	}
 	self.tids = append(self.tids, tid)
-	task = NewBgTask(tid, displayName, stdout)
+	task = NewBgTask(tid, displayName, realName, stdout)
 	self.tasks[tid] = task
-	println(realName)
-	self.name2task[realName] = task
 	return task
 }
 
@@ -177,15 +175,15 @@ func (self *BgTasks) GetEarliestTask() (tid string, task *BgTask, ok bool) {
 	return
 }
 
+// If the command was scheduled more than once, get the earliest one
 func (self *BgTasks) GetTaskByCmd(cmd string) (tid string, task *BgTask, ok bool) {
 	self.lock.Lock()
 	defer self.lock.Unlock()
-	if len(self.tids) == 0 {
-		return
-	}
-	task, ok = self.name2task[cmd]
-	if ok {
-		tid = task.info.Tid
+	for _, tid := range self.tids {
+		task := self.tasks[tid]
+		if task.realName == cmd {
+			return tid, task, true
+		}
 	}
 	return
 }
@@ -228,10 +226,11 @@ func (self *BgTasks) RemoveTask(tid string) {
 	if len(self.tids) == 0 || !ok {
 		panic(fmt.Errorf("[BgTasks.RemoveTask] task '%s' not found", tid))
 	}
-	if self.tids[0] != tid {
-		panic(fmt.Errorf("[BgTasks.RemoveTask] removing task '%s' is not the earliest", tid))
+	for i, it := range self.tids {
+		if it == tid {
+			self.tids = append(self.tids[:i:i], self.tids[i+1:]...)
+			break
+		}
 	}
-	self.tids = self.tids[1:]
 	delete(self.tasks, tid)
-	// TODO: remove it from name2task
 }
diff --git a/pkg/mods/builtin/bg_tasks.go b/pkg/mods/builtin/bg_tasks.go
index a126843..94d9683 100644
--- a/pkg/mods/builtin/bg_tasks.go
+++ b/pkg/mods/builtin/bg_tasks.go
@@ -50,11 +50,14 @@ func WaitForBgTaskFinishByName(
 	tid, task, ok := cc.BgTasks.GetTaskByCmd(verifiedCmd)
 	if !ok {
 		display.PrintTipTitle(cc.Screen, env, "command '"+bgCmd+"' not in background")
-	} else {
+	}
+	// The command could be scheduled more than once
+	for ok {
 		errs := WaitBgTask(cc, env, tid, task)
 		for _, err := range errs {
 			display.PrintError(cc, env, err)
 		}
+		tid, task, ok = cc.BgTasks.GetTaskByCmd(verifiedCmd)
 	}
 	return currCmdIdx, true
 }
-- 
2.43.0


From 1092b87925fb39c2a5feaf54eca653ee1cb78804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 30/62] fix: don't share the session dir of background commands
 between processes

---
 pkg/core/execute/executor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index e4e0d61..d5ca29c 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -511,8 +511,12 @@ func asyncExecute(
 		realName := cmd.LastCmdNode().DisplayPath()
 		tid := utils.GoRoutineIdStr()
 
-		sessionDir := env.GetRaw("session")
-		sessionDir = filepath.Join(sessionDir, tid)
+		sessionDir := filepath.Join(env.GetRaw("session"), tid)
+		if err := os.Mkdir(sessionDir, os.ModePerm); err != nil {
+			// Could be taken by a thread of another process in the same session
+			tid = fmt.Sprintf("%s-%d", tid, os.Getpid())
+			sessionDir = filepath.Join(env.GetRaw("session"), tid)
+		}
 		os.MkdirAll(sessionDir, os.ModePerm)
 
 		statusFileName := env.GetRaw("strs.session-status-file")
-- 
2.43.0


From 040824d8f8beaa50319ac25a390caffb33022880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 31/62] fix: don't leave the values for one command in the
 session env file

---
 pkg/core/model/cmd.go   | 8 ++++++++
 pkg/core/model/proto.go | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index d94cb21..e677d93 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -1061,8 +1061,12 @@ func (self *Cmd) executeFile(argv ArgVals, cc *Cli, env *Env, allowError bool, p
 		defer logger.Close()
 	}
 
+	hasLocals := len(env.localPairs()) != 0
 	err := cmd.Run()
 	if err != nil && !allowError {
+		if len(sessionPath) != 0 && hasLocals {
+			saveSessionLayerToFile(env, sessionPath, sep)
+		}
 		err = &RunCmdFileFailed{
 			err.Error(),
 			parsedCmd,
@@ -1085,6 +1089,10 @@ func (self *Cmd) executeFile(argv ArgVals, cc *Cli, env *Env, allowError bool, p
 		// The stack in the file could be the one of a ticat called by the script
 		sessionEnv.Set("sys.stack", stack)
 		sessionEnv.Set("sys.stack-depth", stackDepth)
+		if hasLocals {
+			// If this ticat was called by a script, the caller will read the file
+			saveSessionLayerToFile(env, sessionPath, sep)
+		}
 	}
 	// It's still a failed command even if the error is allowed
 	return err == nil
diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 19abaaf..bf9c6b8 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -185,6 +185,10 @@ func saveEnvToSessionFile(cc *Cli, env *Env, parsedCmd ParsedCmd, skipDefault bo
 	return
 }
 
+func saveSessionLayerToFile(env *Env, sessionPath string, sep string) {
+	saveEnvToFile(env.GetLayer(EnvLayerSession), sessionPath, sep, nil, false, true)
+}
+
 func loadEnvFromSessionFile(env *Env, path string, sep string, delMark string) {
 	session := env.GetLayer(EnvLayerSession)
 
-- 
2.43.0


From f2a748e780503e816d281b86533d491697076390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 32/62] fix: don't show a command as failed when its record is
 torn

---
 pkg/core/model/executed.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index 9888772..ef7c6d5 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -370,12 +370,12 @@ func parseExecutedCmd(path ExecutedStatusFilePath, lines []string,
 	}
 	lastActiveTs = cmd.FinishTs
 
-	cmd.Result, lines, ok = parseCmdOrFlowResult(path, lines, "cmd-result", level, ExecutedResultError)
-	cmd.failed = cmd.Result == ExecutedResultError
-	cmd.CalResultInCaseIncompleted()
+	cmd.Result, lines, ok = parseCmdOrFlowResult(path, lines, "cmd-result", level, ExecutedResultIncompleted)
 	if !ok {
 		return cmd, lines, lastActiveTs, false
 	}
+	cmd.failed = cmd.Result == ExecutedResultError
+	cmd.CalResultInCaseIncompleted()
 
 	errLines, lines, ok := parseMarkedContent(path, lines, "error", level)
 	if ok {
-- 
2.43.0


From 379f35af76edb2e7a641cfd21541c5b49f7dad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:26 +0000
Subject: [PATCH 33/62] fix: sessions.remove.by-search removed only the latest
 matching session

---
 pkg/mods/builtin/sessions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/sessions.go b/pkg/mods/builtin/sessions.go
index 605c4e0..e2396c0 100644
--- a/pkg/mods/builtin/sessions.go
+++ b/pkg/mods/builtin/sessions.go
@@ -339,7 +339,7 @@ func FindAndRemoveSessions(
 	force := argv.GetBool("remove-running")
 
 	findStrs := getFindStrsFromArgvAndFlow(flow, currCmdIdx, argv)
-	sessions, _ := findSessions(findStrs, "", cc, env, 1, true, true, true)
+	sessions, _ := findSessions(findStrs, "", cc, env, 0, true, true, true)
 	if len(sessions) == 0 {
 		return currCmdIdx, true
 	}
-- 
2.43.0


From e7e6c05da9f0d04268eec8463a4d384f31ecd4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 34/62] fix: two processes cloning the same hub repo at the
 same time made one of them fail

---
 pkg/mods/persist/hub_meta/hub_repo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/mods/persist/hub_meta/hub_repo.go b/pkg/mods/persist/hub_meta/hub_repo.go
index bc98f02..257d053 100644
--- a/pkg/mods/persist/hub_meta/hub_repo.go
+++ b/pkg/mods/persist/hub_meta/hub_repo.go
@@ -188,6 +188,11 @@ func updateRepoAndReadSubList(
 		err = os.Rename(clonePath, repoPath)
 		if err != nil {
 			os.RemoveAll(clonePath)
+			stat, statErr := os.Stat(repoPath)
+			if statErr == nil && stat.IsDir() {
+				// Another process has cloned it in the meantime
+				return ReadRepoListFromFile(selfName, filepath.Join(repoPath, listFileName))
+			}
 			panic(model.WrapCmdError(cmd, fmt.Errorf("rename '%s' to '%s' failed: %v", clonePath, repoPath, err)))
 		}
 	}
-- 
2.43.0


From 7a49fbc755b10f0dd0fd7119aae0743040de0d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 35/62] fix: listing or removing sessions before the first
 session panicked with a broken message

---
 pkg/core/model/session.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/core/model/session.go b/pkg/core/model/session.go
index 0c35c51..e9521cf 100644
--- a/pkg/core/model/session.go
+++ b/pkg/core/model/session.go
@@ -42,8 +42,8 @@ func ListSessions(
 	}
 
 	entrys, err := os.ReadDir(sessionsRoot)
-	if err != nil {
-		panic(fmt.Sprintf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
+	if err != nil && !os.IsNotExist(err) {
+		panic(fmt.Errorf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
 	}
 	dirs := make([]string, len(entrys))
 	for i, it := range entrys {
@@ -115,8 +115,8 @@ func CleanSessions(env *Env) (cleaned uint, runnings uint) {
 	}
 
 	dirs, err := os.ReadDir(sessionsRoot)
-	if err != nil {
-		panic(fmt.Sprintf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
+	if err != nil && !os.IsNotExist(err) {
+		panic(fmt.Errorf("[CleanSessions] can't read sessions' root path '%s'\n", sessionsRoot))
 	}
 
 	for _, dir := range dirs {
-- 
2.43.0


From 90b42012e8467c56b02384536869b7741cce4bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 36/62] fix: a nested ticat call runs the exit hooks of the
 session it belongs to

---
 pkg/ticat/ticat.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ticat/ticat.go b/pkg/ticat/ticat.go
index c8b3dee..5d0e6be 100644
--- a/pkg/ticat/ticat.go
+++ b/pkg/ticat/ticat.go
@@ -231,6 +231,10 @@ func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
 	if len(env.GetRaw("session")) == 0 {
 		return true
 	}
+	// A nested call (in a script of a session) is not the end of that session
+	if ticat.cc.FlowStatus == nil {
+		return true
+	}
 	hookStr := env.GetRaw(hookKeyName)
 	if !(len(hookStr) != 0 && ticat.executor != nil) {
 		return true
-- 
2.43.0


From da7e0f544bfff4a857317def0ebf587ab191e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:11 +0000
Subject: [PATCH 37/62] fix: a failing done or error hook keeps the exit hook
 from running

---
 pkg/ticat/ticat.go | 54 ++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/pkg/ticat/ticat.go b/pkg/ticat/ticat.go
index 5d0e6be..b2d8444 100644
--- a/pkg/ticat/ticat.go
+++ b/pkg/ticat/ticat.go
@@ -195,16 +195,14 @@ func (ticat *TiCat) run(args ...string) bool {
 		recovered := recover()
 		if recovered == nil {
 			// Exit point: succeed
-			ticat.exitEventHook("sys.event.hook.done")
-			ticat.exitEventHook("sys.event.hook.exit")
+			ticat.exitEventHooks("sys.event.hook.done", "sys.event.hook.exit")
 			return
 		}
 		if env.GetBool("sys.panic.recover") {
 			display.PrintError(ticat.cc, env, recovered.(error))
 		}
 		// Exit point: panic
-		ticat.exitEventHook("sys.event.hook.error")
-		ticat.exitEventHook("sys.event.hook.exit")
+		ticat.exitEventHooks("sys.event.hook.error", "sys.event.hook.exit")
 		// TODO: need to check this flag doesn't from user-level persisted env
 		if env.GetBool("sys.panic.recover") {
 			os.Exit(-1)
@@ -219,25 +217,44 @@ func (ticat *TiCat) run(args ...string) bool {
 	// TODO: more exit codes
 	if !succeeded {
 		// Exit point: error
-		ticat.exitEventHook("sys.event.hook.error")
-		ticat.exitEventHook("sys.event.hook.exit")
+		ticat.exitEventHooks("sys.event.hook.error", "sys.event.hook.exit")
 		os.Exit(1)
 	}
 	return succeeded
 }
 
-func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
+// A failing hook doesn't keep the others from running
+func (ticat *TiCat) exitEventHooks(hookKeyNames ...string) {
+	var failed interface{}
+	for _, hookKeyName := range hookKeyNames {
+		if err := ticat.exitEventHook(hookKeyName); err != nil && failed == nil {
+			failed = err
+		}
+	}
+	if failed == nil {
+		return
+	}
+	// Exit point: panic when executing exit-event-hook
+	// TODO: need to check this flag doesn't from user-level persisted env
+	if ticat.Env.GetBool("sys.panic.recover") {
+		os.Exit(-2)
+	}
+	// Re-throw
+	panic(failed)
+}
+
+func (ticat *TiCat) exitEventHook(hookKeyName string) (failed interface{}) {
 	env := ticat.Env
 	if len(env.GetRaw("session")) == 0 {
-		return true
+		return nil
 	}
 	// A nested call (in a script of a session) is not the end of that session
 	if ticat.cc.FlowStatus == nil {
-		return true
+		return nil
 	}
 	hookStr := env.GetRaw(hookKeyName)
 	if !(len(hookStr) != 0 && ticat.executor != nil) {
-		return true
+		return nil
 	}
 
 	hookFlow := model.FlowStrToStrs(hookStr)
@@ -249,18 +266,9 @@ func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
 	env.SetBool("sys.unlog-status", true)
 
 	defer func() {
-		recovered := recover()
-		if recovered == nil {
-			return
-		}
-		// Exit point: panic when executing exit-event-hook
-		// TODO: need to check this flag doesn't from user-level persisted env
-		if env.GetBool("sys.panic.recover") {
-			display.PrintError(ticat.cc, env, recovered.(error))
-			os.Exit(-2)
-		} else {
-			// Re-throw
-			panic(recovered)
+		failed = recover()
+		if failed != nil && env.GetBool("sys.panic.recover") {
+			display.PrintError(ticat.cc, env, failed.(error))
 		}
 	}()
 
@@ -270,5 +278,5 @@ func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
 		panic(fmt.Errorf("failed to execute exit-hook ('%s'): %s", hookKeyName, hookFlow))
 	}
 
-	return true
+	return nil
 }
-- 
2.43.0


From e839f79784c0373b5c4b7c9867b4f145ebadaa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 38/62] fix: stepping over the last command of a subflow
 doesn't pause before the next command

---
 pkg/core/execute/executor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index d5ca29c..ce2dcd0 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -208,6 +208,10 @@ func (self *Executor) executeFlow(
 			return false
 		}
 	}
+	if breakAtNext && env.LayerType() == model.EnvLayerSubFlow {
+		// The next command is out of this subflow
+		env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.status.step-out", true)
+	}
 	if cc.ForestMode.AtForestTopLvl(env) {
 		cc.ForestMode.Pop(env)
 	}
-- 
2.43.0


From b03868aa9600cff078a4dfa52729b316ec565630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:07 +0000
Subject: [PATCH 39/62] fix: 'continue' at a pause still paused at the next
 commands when a step in or out was pending

---
 pkg/core/execute/interactive.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index 4e5c8cc..f71357d 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -73,6 +73,10 @@ func tryBreakBefore(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, mask *mo
 		return BPAContinue
 	}
 
+	// It's paused here now, whatever the reason is
+	env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-in")
+	env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-out")
+
 	choices := []string{}
 	var reason string
 
@@ -85,13 +89,9 @@ func tryBreakBefore(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, mask *mo
 		choices = append(choices, "s", "d", "c")
 	} else if stepIn {
 		// TODO: BUG: too soon to delete at here, if the first cmd after step-in is FileNFlow, that this cmd can't break between subflow and script
-		env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-in")
 		reason = display.ColorTip("just stepped in", env)
 		choices = append(choices, "s", "d", "c")
 	} else if stepOut {
-		if env.GetBool("sys.breakpoint.status.step-out") {
-			env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-out")
-		}
 		reason = display.ColorTip("just stepped out", env)
 		choices = append(choices, "s", "d", "c")
 	} else if breakByPrev {
@@ -204,7 +204,6 @@ func tryBreakInsideFileNFlow(cc *model.Cli, env *model.Env, cmd *model.Cmd, brea
 		env,
 		showStack)
 	if bpa == BPAContinue {
-		env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-out")
 		return true
 	}
 	if bpa == BPAStepOver {
@@ -264,7 +263,10 @@ func readUserBPAChoice(reason string, choices []string, actions BPAs, lowerInput
 				showTitle()
 				continue
 			} else if action == BPAContinue {
-				env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.at-next", false)
+				sessionEnv := env.GetLayer(model.EnvLayerSession)
+				sessionEnv.SetBool("sys.breakpoint.at-next", false)
+				sessionEnv.Delete("sys.breakpoint.status.step-in")
+				sessionEnv.Delete("sys.breakpoint.status.step-out")
 			}
 			return action
 		}
-- 
2.43.0


From d522c8707dc652fd8f90cfb8d599a7f107a7355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:54 +0000
Subject: [PATCH 40/62] fix: 'continue' at a pause of a step still paused
 between the subflow and the script of the command

---
 pkg/core/execute/executor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index ce2dcd0..b26c217 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -263,6 +263,9 @@ func (self *Executor) executeCmd(
 			breakAtNext = true
 		} else if bpa != BPAContinue {
 			return
+		} else {
+			// The previous choice is replaced by this one
+			breakByPrev = false
 		}
 	} else {
 		// TODO: need to do anything for bg cmd?
-- 
2.43.0


From 9a041df6a4d834a0fee6b200fbc4ef6a0452cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:54 +0000
Subject: [PATCH 41/62] fix: a choice which wasn't offered at a pause was taken

---
 pkg/core/execute/interactive.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index f71357d..0ff27ff 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -246,7 +246,12 @@ func readUserBPAChoice(reason string, choices []string, actions BPAs, lowerInput
 		if lowerInput {
 			line = strings.ToLower(line)
 		}
-		if action, ok := actions[line]; ok {
+		// Only the shown choices, the others may have no meaning at this point
+		offered := false
+		for _, choice := range choices {
+			offered = offered || choice == line
+		}
+		if action, ok := actions[line]; ok && offered {
 			if action == BPAQuit {
 				panic(model.NewAbortByUserErr())
 			} else if action == BPAInteract {
-- 
2.43.0


From a6a55c717b8d9eb22ba6ac8874d69f6d6bb895d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 42/62] fix: a step was lost at commands which never pause,
 skipping at an empty one panicked

---
 pkg/core/execute/executor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index b26c217..cdb7123 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -251,7 +251,11 @@ func (self *Executor) executeCmd(
 	last := cmd.LastCmdNode()
 
 	// TODO: change name `IsDelay`, maybe `IsBackgroundCmd`
-	if !sysArgv.IsDelay() {
+	if last == nil || cmd.IsQuiet() || sysArgv.IsDelay() {
+		// Never pause at this one, so the previous choice is for the one after it
+		breakAtNext = breakByPrev
+	}
+	if last != nil && !sysArgv.IsDelay() {
 		bpa := tryWaitSecAndBreakBefore(cc, env, cmd, mask, breakByPrev, lastCmdInFlow, bootstrap, showStack)
 		if bpa == BPASkip {
 			mask = copyMask(last.DisplayPath(), mask)
-- 
2.43.0


From ffa1472fd6444ca02edb99d3f699eff31bd6a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:21 +0000
Subject: [PATCH 43/62] fix: failing to set up the thread of a delayed command
 crashed ticat without running its hooks

---
 pkg/core/execute/executor.go | 59 ++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index cdb7123..b0c2aee 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -506,7 +506,11 @@ func asyncExecute(
 		panic(fmt.Errorf("can't delay a command when not in main thread, current thread: %s", tid))
 	}
 
-	tidChan := make(chan string, 1)
+	type setupResult struct {
+		tid  string
+		fail interface{}
+	}
+	setupChan := make(chan setupResult, 1)
 
 	// TODO: fixme, do real clone for ready-only instances
 	go func(
@@ -521,28 +525,39 @@ func asyncExecute(
 		displayName := cmd.DisplayPath(cc.Cmds.Strs.PathSep, true)
 		realName := cmd.LastCmdNode().DisplayPath()
 		tid := utils.GoRoutineIdStr()
+		var task *model.BgTask
+
+		fail := func() (fail interface{}) {
+			defer func() {
+				fail = recover()
+			}()
+
+			sessionDir := filepath.Join(env.GetRaw("session"), tid)
+			if err := os.Mkdir(sessionDir, os.ModePerm); err != nil {
+				// Could be taken by a thread of another process in the same session
+				tid = fmt.Sprintf("%s-%d", tid, os.Getpid())
+				sessionDir = filepath.Join(env.GetRaw("session"), tid)
+			}
+			os.MkdirAll(sessionDir, os.ModePerm)
 
-		sessionDir := filepath.Join(env.GetRaw("session"), tid)
-		if err := os.Mkdir(sessionDir, os.ModePerm); err != nil {
-			// Could be taken by a thread of another process in the same session
-			tid = fmt.Sprintf("%s-%d", tid, os.Getpid())
-			sessionDir = filepath.Join(env.GetRaw("session"), tid)
-		}
-		os.MkdirAll(sessionDir, os.ModePerm)
-
-		statusFileName := env.GetRaw("strs.session-status-file")
-		statusPath := filepath.Join(sessionDir, statusFileName)
-		cc.SetFlowStatusWriter(model.NewExecutingFlow(statusPath, flow, env))
+			statusFileName := env.GetRaw("strs.session-status-file")
+			statusPath := filepath.Join(sessionDir, statusFileName)
+			cc.SetFlowStatusWriter(model.NewExecutingFlow(statusPath, flow, env))
 
-		bgSessionEnv := env.GetLayer(model.EnvLayerSession)
-		bgSessionEnv.Set("session", sessionDir)
-		bgSessionEnv.SetBool("display.one-cmd", true)
-		bgSessionEnv.SetBool("sys.in-bg-task", true)
+			bgSessionEnv := env.GetLayer(model.EnvLayerSession)
+			bgSessionEnv.Set("session", sessionDir)
+			bgSessionEnv.SetBool("display.one-cmd", true)
+			bgSessionEnv.SetBool("sys.in-bg-task", true)
 
-		clearBreakPointStatusInEnv(bgSessionEnv)
+			clearBreakPointStatusInEnv(bgSessionEnv)
 
-		task := cc.BgTasks.GetOrAddTask(tid, displayName, realName, cc.Screen.(*model.BgTaskScreen).GetBgStdout())
-		tidChan <- tid
+			task = cc.BgTasks.GetOrAddTask(tid, displayName, realName, cc.Screen.(*model.BgTaskScreen).GetBgStdout())
+			return nil
+		}()
+		setupChan <- setupResult{tid, fail}
+		if fail != nil {
+			return
+		}
 
 		time.Sleep(dur)
 
@@ -588,7 +603,11 @@ func asyncExecute(
 
 	}(dur, argv, cc, env, flow, currCmdIdx)
 
-	tid = <-tidChan
+	setup := <-setupChan
+	if setup.fail != nil {
+		panic(setup.fail)
+	}
+	tid = setup.tid
 	screen.Print(display.ColorExplain("(current command scheduled to thread "+tid+")\n", env))
 	return tid, true
 }
-- 
2.43.0


From 5e6f54fbc98b446cd7c55bc56b48ee030a92674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 44/62] fix: a delayed command crashed ticat if the flow has no
 session

---
 pkg/core/execute/executor.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index b0c2aee..e972ce3 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -532,20 +532,24 @@ func asyncExecute(
 				fail = recover()
 			}()
 
-			sessionDir := filepath.Join(env.GetRaw("session"), tid)
-			if err := os.Mkdir(sessionDir, os.ModePerm); err != nil {
-				// Could be taken by a thread of another process in the same session
-				tid = fmt.Sprintf("%s-%d", tid, os.Getpid())
-				sessionDir = filepath.Join(env.GetRaw("session"), tid)
-			}
-			os.MkdirAll(sessionDir, os.ModePerm)
+			bgSessionEnv := env.GetLayer(model.EnvLayerSession)
 
-			statusFileName := env.GetRaw("strs.session-status-file")
-			statusPath := filepath.Join(sessionDir, statusFileName)
-			cc.SetFlowStatusWriter(model.NewExecutingFlow(statusPath, flow, env))
+			// A flow of no-session commands has no session
+			if session := env.GetRaw("session"); len(session) != 0 {
+				sessionDir := filepath.Join(session, tid)
+				if err := os.Mkdir(sessionDir, os.ModePerm); err != nil {
+					// Could be taken by a thread of another process in the same session
+					tid = fmt.Sprintf("%s-%d", tid, os.Getpid())
+					sessionDir = filepath.Join(session, tid)
+				}
+				os.MkdirAll(sessionDir, os.ModePerm)
 
-			bgSessionEnv := env.GetLayer(model.EnvLayerSession)
-			bgSessionEnv.Set("session", sessionDir)
+				statusFileName := env.GetRaw("strs.session-status-file")
+				statusPath := filepath.Join(sessionDir, statusFileName)
+				cc.SetFlowStatusWriter(model.NewExecutingFlow(statusPath, flow, env))
+
+				bgSessionEnv.Set("session", sessionDir)
+			}
 			bgSessionEnv.SetBool("display.one-cmd", true)
 			bgSessionEnv.SetBool("sys.in-bg-task", true)
 
@@ -599,7 +603,9 @@ func asyncExecute(
 				env, ok, elapsed, flow.Cmds, currCmdIdx, cc.Cmds.Strs)
 			display.RenderCmdResult(resultLines, env, cc.Screen, width)
 		}
-		cc.FlowStatus.OnFlowFinish(env, ok)
+		if cc.FlowStatus != nil {
+			cc.FlowStatus.OnFlowFinish(env, ok)
+		}
 
 	}(dur, argv, cc, env, flow, currCmdIdx)
 
-- 
2.43.0


From eab4245d154a744a60f0d55f310b7a793329b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:22 +0000
Subject: [PATCH 45/62] fix: a module whose env key abbreviation is an existing
 env key no longer makes every command fail

---
 pkg/core/execute/executor.go | 11 +----------
 pkg/core/model/env_abbr.go   |  9 +++++++++
 pkg/mods/builtin/flow.go     |  2 ++
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index e972ce3..752bfb6 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -97,7 +97,7 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 	}
 
 	if !innerCall && !bootstrap {
-		useEnvAbbrs(cc.EnvAbbrs, env, cc.Cmds.Strs.EnvPathSep)
+		cc.EnvAbbrs.AddEnvKeys(env, cc.Cmds.Strs.EnvPathSep)
 	}
 	flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, input...)
 	if flow.GlobalEnv != nil {
@@ -446,15 +446,6 @@ func useCmdsAbbrs(abbrs *model.EnvAbbrs, cmds *model.CmdTree) {
 	}
 }
 
-func useEnvAbbrs(abbrs *model.EnvAbbrs, env *model.Env, sep string) {
-	for k, _ := range env.Flatten(true, nil, true) {
-		curr := abbrs
-		for _, seg := range strings.Split(k, sep) {
-			curr = curr.GetOrAddSub(seg)
-		}
-	}
-}
-
 func stackStepIn(caller string, env *model.Env) {
 	env = env.GetLayer(model.EnvLayerSession)
 	env.PlusInt("sys.stack-depth", 1)
diff --git a/pkg/core/model/env_abbr.go b/pkg/core/model/env_abbr.go
index d40a378..1a5e6aa 100644
--- a/pkg/core/model/env_abbr.go
+++ b/pkg/core/model/env_abbr.go
@@ -114,6 +114,15 @@ func (self *EnvAbbrs) GetOrAddSub(name string) *EnvAbbrs {
 	return sub
 }
 
+func (self *EnvAbbrs) AddEnvKeys(env *Env, sep string) {
+	for k, _ := range env.Flatten(true, nil, true) {
+		curr := self
+		for _, seg := range strings.Split(k, sep) {
+			curr = curr.GetOrAddSub(seg)
+		}
+	}
+}
+
 func (self *EnvAbbrs) GetSub(name string) *EnvAbbrs {
 	sub, _ := self.subs[name]
 	return sub
diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 4478712..e5eb3eb 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -331,6 +331,8 @@ func LoadFlows(
 	currCmdIdx int) (int, bool) {
 
 	assertNotTailMode(flow, currCmdIdx)
+	// If a module defines an existing key as an abbr of another key, it's the module who is refused
+	cc.EnvAbbrs.AddEnvKeys(env, cc.Cmds.Strs.EnvPathSep)
 	root := getFlowRoot(env, flow.Cmds[currCmdIdx])
 	loadFlowsFromDir(flow, currCmdIdx, root, cc, env, root)
 	return currCmdIdx, true
-- 
2.43.0


From ae37566f8584019950327b0bac593d985d64430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:11 +0000
Subject: [PATCH 46/62] fix: the meta file of a dir no longer changes a command
 of the same name defined elsewhere

---
 pkg/mods/persist/mod_meta/mod_reg.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/mods/persist/mod_meta/mod_reg.go b/pkg/mods/persist/mod_meta/mod_reg.go
index 499c954..af22238 100644
--- a/pkg/mods/persist/mod_meta/mod_reg.go
+++ b/pkg/mods/persist/mod_meta/mod_reg.go
@@ -60,6 +60,10 @@ func RegMod(
 	}
 }
 
+func isEmptyDirMeta(meta *meta_file.MetaFile) bool {
+	return len(meta.Get("cmd")) == 0 && len(meta.GetGlobalSection().GetMultiLineVal("flow", false)) == 0
+}
+
 func getVirtualFileCmdPath(path string, flowExt string, pathSep string) []string {
 	base := filepath.Base(path)
 	if !strings.HasSuffix(base, flowExt) {
@@ -83,6 +87,12 @@ func regModFile(
 	panicRecover bool) {
 
 	mod := cc.Cmds.GetOrAddSubEx(source, cmdPath...)
+	if isDir && isEmptyDirMeta(meta) && mod.Cmd() != nil && !mod.Cmd().IsTotallyEmpty() {
+		// The command is defined by others, the meta of a dir should not change it
+		regModAbbrs(meta, mod)
+		regTags(meta, mod)
+		return
+	}
 	cmd := regMod(meta, mod, executablePath, isDir, source)
 	mod.SetSource(source)
 	cmd.SetMetaFile(metaPath)
-- 
2.43.0


From c8728ebb7c9ea2cee64088e594d33a5be43c3f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:12 +0000
Subject: [PATCH 47/62] fix: failures of loading modules are reported as well
 when they make a command unknown

---
 pkg/core/execute/executor.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 752bfb6..85df93b 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -130,6 +130,9 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 		cc.Blender.Invoke(cc, env, flow)
 	}
 
+	// Before handling the parse result: loading failures may be the reason of parse errors
+	display.PrintTolerableErrs(cc.Screen, env, cc.TolerableErrs)
+
 	if !allowParseError(flow) {
 		isSearch := isStartWithSearchCmd(flow)
 		if !display.HandleParseResult(cc, flow, env, isSearch) {
@@ -137,8 +140,6 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 		}
 	}
 
-	display.PrintTolerableErrs(cc.Screen, env, cc.TolerableErrs)
-
 	crossProcessInnerCall := false
 
 	if !innerCall && !bootstrap && !env.GetBool("sys.interact.inside") {
-- 
2.43.0


From 567a374ead8da6f37760074dc40a166b1bc9b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:01 +0000
Subject: [PATCH 48/62] fix: sleep dropped the fraction of a second of its
 duration

---
 pkg/mods/builtin/misc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/mods/builtin/misc.go b/pkg/mods/builtin/misc.go
index 95c99b9..d5bf860 100644
--- a/pkg/mods/builtin/misc.go
+++ b/pkg/mods/builtin/misc.go
@@ -51,6 +51,7 @@ func Sleep(
 		panic(fmt.Errorf("[Sleep] time string '%s' parse failed: %v\n", durStr, err))
 	}
 	secs := int(dur.Seconds())
+	time.Sleep(dur - time.Duration(secs)*time.Second)
 	if secs == 0 {
 		return currCmdIdx, true
 	}
-- 
2.43.0


From 2cbf6c6666d73b646b83a8528505762ff16f3050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:44 +0000
Subject: [PATCH 49/62] fix: keep env keys which only begin with the name of a
 filtered key

Keys like 'session-name' were neither saved by env.save nor recorded in
snapshots and session status, because 'session' was used as a bare prefix.
---
 pkg/core/model/env.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/env.go b/pkg/core/model/env.go
index 043ec69..090305f 100644
--- a/pkg/core/model/env.go
+++ b/pkg/core/model/env.go
@@ -343,7 +343,7 @@ func (self *Env) flatten(
 	for k, v := range self.pairs {
 		filtered := false
 		for _, filterPrefix := range filterPrefixs {
-			if len(filterPrefix) != 0 && strings.HasPrefix(k, filterPrefix) {
+			if matchEnvKeyPrefix(k, filterPrefix) {
 				filtered = true
 				break
 			}
@@ -356,6 +356,15 @@ func (self *Env) flatten(
 	}
 }
 
+// A prefix matches whole path segments: 'session' is for 'session' and 'session.*', not for 'session-name'
+func matchEnvKeyPrefix(key string, prefix string) bool {
+	if len(prefix) == 0 || !strings.HasPrefix(key, prefix) {
+		return false
+	}
+	rest := key[len(prefix):]
+	return len(rest) == 0 || strings.HasSuffix(prefix, ".") || strings.HasPrefix(rest, ".")
+}
+
 func IsSensitiveKeyVal(key string, val string) bool {
 	sensitives := []string{
 		"pwd",
-- 
2.43.0


From d7b167079c23836e97b26a781bf3f345b5e3d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:59 +0000
Subject: [PATCH 50/62] fix: keep all of a flow file but the help when setting
 its help string

---
 pkg/mods/builtin/flow.go                |  4 ++--
 pkg/mods/persist/flow_file/flow_file.go | 11 +++++++++++
 pkg/mods/persist/meta_file/meta_file.go |  4 ++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index e5eb3eb..65257fa 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -298,8 +298,8 @@ func SetFlowHelpStr(
 
 	help := argv.GetRaw("help-str")
 	argCmdPath, cmdPath, filePath, _ := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, true, "cmd-path")
-	flowStrs, oldHelp, abbrsStr, trivial, autoArgs, packSub := flow_file.LoadFlowFile(filePath)
-	flow_file.SaveFlowFile(filePath, flowStrs, help, abbrsStr, trivial, autoArgs, packSub)
+	flowStrs, oldHelp, _, _, _, _ := flow_file.LoadFlowFile(filePath)
+	flow_file.SetFlowFileHelp(filePath, help)
 
 	realCmdStr := ""
 	if argCmdPath != cmdPath {
diff --git a/pkg/mods/persist/flow_file/flow_file.go b/pkg/mods/persist/flow_file/flow_file.go
index 4a74455..1d6778c 100644
--- a/pkg/mods/persist/flow_file/flow_file.go
+++ b/pkg/mods/persist/flow_file/flow_file.go
@@ -32,6 +32,17 @@ func LoadFlowFile(path string) (flow []string, help string, abbrs string,
 	return
 }
 
+// All the others in the file stay as they are
+func SetFlowFileHelp(path string, help string) {
+	metas := meta_file.NewMetaFile(path)
+	if len(metas) != 1 || !metas[0].NotVirtual {
+		panic(fmt.Errorf("can't edit the content of a combined flow file"))
+	}
+	meta := metas[0].Meta
+	meta.GetGlobalSection().Set("help", help)
+	meta.Save()
+}
+
 func SaveFlowFile(path string, flow []string, help string, abbrs string,
 	trivial string, autoArgs string, packSub string) {
 
diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 3085cca..6e3f7d6 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -139,9 +139,8 @@ func (self *MetaFile) GetAll() SectionMap {
 
 func (self *MetaFile) parse(lines []string) {
 	var sectionName string
-	section := NewSection()
+	section := self.NewOrGetSection(sectionName)
 	global := section
-	self.sections[sectionName] = section
 
 	var multiLineKey string
 	var multiLineValue []string
@@ -227,6 +226,7 @@ func (self *MetaFile) parse(lines []string) {
 				global.SetMultiLineVal(k, v)
 			} else {
 				sectionName = line[1 : size-1]
+				self.NewOrGetSection(sectionName)
 				section = NewSection()
 				self.sections[sectionName] = section
 			}
-- 
2.43.0


From e9e2b847ebd78d820fff8b02ccca4f3fb9744a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:32 +0000
Subject: [PATCH 51/62] fix: map arguments of flows in a fixed order, not by
 chance

---
 pkg/core/model/args_auto_map.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/core/model/args_auto_map.go b/pkg/core/model/args_auto_map.go
index 0ced544..9ae0e5d 100644
--- a/pkg/core/model/args_auto_map.go
+++ b/pkg/core/model/args_auto_map.go
@@ -14,7 +14,15 @@ func (self Arg2EnvAutoMapCmds) AddAutoMapTarget(cmd *Cmd) {
 
 func (self Arg2EnvAutoMapCmds) AutoMapArg2Env(cc *Cli, env *Env, envOpCmds []EnvOpCmd, stackDepth int) {
 	sep := env.GetRaw("strs.cmd-path-sep")
+	var cmds []*Cmd
 	for cmd, _ := range self {
+		cmds = append(cmds, cmd)
+	}
+	// The result of a mapping can depend on the ones done before, should not be by chance
+	sort.Slice(cmds, func(i, j int) bool {
+		return strings.Join(cmds[i].Owner().Path(), sep) < strings.Join(cmds[j].Owner().Path(), sep)
+	})
+	for _, cmd := range cmds {
 		argv := env.GetArgv(cmd.Owner().Path(), sep, stackDepth, cmd.Args())
 		tryAutoMapArg2EnvForCmd(cc, env, cmd, argv, envOpCmds, stackDepth)
 	}
-- 
2.43.0


From 585b134233bc7a9cb88b1366a9943dc8c3870127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:11 +0000
Subject: [PATCH 52/62] fix: retry matches executed commands, those with
 nothing to execute have no record

A command without an executable (only a meta file, an empty dir) or a
segment with nothing but env settings is not in the status file of a
session, but the masks of a retry and the executed flow to show were
matched by position in the flow. So commands after it got the record of
the next ones: succeeded ones were executed again.
---
 pkg/cli/display/flow.go      | 8 +++++---
 pkg/core/execute/executor.go | 9 +++++++--
 pkg/core/model/parsing.go    | 6 ++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index 218e132..49f3339 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -112,15 +112,17 @@ func dumpFlow(
 	metFlows := map[string]bool{}
 
 	metFailedOrRunning := false
+	executedIdx := 0
 
 	for i, cmd := range flow.Cmds[fromCmdIdx:] {
 		if cmd.IsEmpty() {
 			continue
 		}
 		var executedCmd *model.ExecutedCmd
-		if executedFlow != nil {
-			if i < len(executedFlow.Cmds) {
-				executedCmd = executedFlow.GetCmd(i)
+		if executedFlow != nil && !cmd.IsNoExecutableCmd() {
+			if executedIdx < len(executedFlow.Cmds) {
+				executedCmd = executedFlow.GetCmd(executedIdx)
+				executedIdx += 1
 			} else {
 				// TODO: better display
 				name := strings.Join(cmd.Path(), sep)
diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 85df93b..b22587b 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -192,12 +192,17 @@ func (self *Executor) executeFlow(
 	input []string) bool {
 
 	breakAtNext := false
+	// The masks are from the executed status
+	maskIdx := 0
 	for i := 0; i < len(flow.Cmds); i++ {
 		cmd := flow.Cmds[i]
 		var succeeded bool
 		var mask *model.ExecuteMask
-		if i < len(masks) {
-			mask = masks[i]
+		if !cmd.IsNoExecutableCmd() {
+			if maskIdx < len(masks) {
+				mask = masks[maskIdx]
+			}
+			maskIdx += 1
 		}
 		cmdEnv := env
 		if cc.ForestMode.AtForestTopLvl(env) {
diff --git a/pkg/core/model/parsing.go b/pkg/core/model/parsing.go
index daedb31..91e9579 100644
--- a/pkg/core/model/parsing.go
+++ b/pkg/core/model/parsing.go
@@ -129,6 +129,12 @@ func (self ParsedCmd) IsEmpty() bool {
 	return len(self.Segments) == 0
 }
 
+// These have nothing to execute, so they will not be in the executed status
+func (self ParsedCmd) IsNoExecutableCmd() bool {
+	last := self.LastCmdNode()
+	return last == nil || last.IsNoExecutableCmd()
+}
+
 func (self ParsedCmd) IsApi() bool {
 	if self.IsEmpty() {
 		return false
-- 
2.43.0


From 39df50f63908a68fff21e0b4e2d24a2f94d2c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:02 +0000
Subject: [PATCH 53/62] fix: forest-mode of a flow ends with it when its
 failure is allowed, the flows around lost theirs

---
 pkg/core/execute/executor.go |  9 ++++++---
 pkg/core/model/forest.go     | 20 +++++++-------------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index b22587b..4f2df7e 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -191,6 +191,12 @@ func (self *Executor) executeFlow(
 	masks []*model.ExecuteMask,
 	input []string) bool {
 
+	// A forest-mode in this flow ends with it, no matter how it ends
+	forestDepth := cc.ForestMode.Depth()
+	defer func() {
+		cc.ForestMode.PopTo(forestDepth)
+	}()
+
 	breakAtNext := false
 	// The masks are from the executed status
 	maskIdx := 0
@@ -218,9 +224,6 @@ func (self *Executor) executeFlow(
 		// The next command is out of this subflow
 		env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.status.step-out", true)
 	}
-	if cc.ForestMode.AtForestTopLvl(env) {
-		cc.ForestMode.Pop(env)
-	}
 	return true
 }
 
diff --git a/pkg/core/model/forest.go b/pkg/core/model/forest.go
index 625ace3..9e99b79 100644
--- a/pkg/core/model/forest.go
+++ b/pkg/core/model/forest.go
@@ -1,9 +1,5 @@
 package model
 
-import (
-	"fmt"
-)
-
 type ForestMode struct {
 	stack []string
 }
@@ -16,16 +12,14 @@ func (self ForestMode) AtForestTopLvl(env *Env) bool {
 	return len(self.stack) != 0 && self.stack[len(self.stack)-1] == GetLastStackFrame(env)
 }
 
-func (self *ForestMode) Pop(env *Env) {
-	if len(self.stack) == 0 {
-		panic(fmt.Errorf("[Forest] should never happen: pop on empty"))
-	}
-	last1 := GetLastStackFrame(env)
-	last2 := self.stack[len(self.stack)-1]
-	if last1 != last2 {
-		panic(fmt.Errorf("[Forest] should never happen: pop on wrong frame: %s != %s", last1, last2))
+func (self *ForestMode) Depth() int {
+	return len(self.stack)
+}
+
+func (self *ForestMode) PopTo(depth int) {
+	if len(self.stack) > depth {
+		self.stack = self.stack[0:depth]
 	}
-	self.stack = self.stack[0 : len(self.stack)-1]
 }
 
 func (self *ForestMode) Push(frame string) {
-- 
2.43.0


From 239338802099ccaebbcfcb61cd758f760a18492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:47 +0000
Subject: [PATCH 54/62] fix: commands ran twice when there was more than one
 flow.replace

---
 pkg/core/model/blender.go | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/pkg/core/model/blender.go b/pkg/core/model/blender.go
index cc80245..d083e33 100644
--- a/pkg/core/model/blender.go
+++ b/pkg/core/model/blender.go
@@ -154,30 +154,24 @@ func (self *Blender) Invoke(cc *Cli, env *Env, flow *ParsedCmds) (changed bool)
 
 		originDeleted := false
 		originPosDelta := 0
-		addedCmdCnt := 0
+		blended := []ParsedCmd{parsedCmd}
+		// Only the first matched one is applied to a command
 		for j := 0; j < len(self.invokers); j++ {
 			invoker := self.invokers[j]
 			cmds, deleted, posDelta, finished := invoker.Invoke(parsedCmd)
-			if finished {
-				if j == len(self.invokers)-1 {
-					self.invokers = self.invokers[0:j]
-				} else {
-					self.invokers = append(self.invokers[0:j], self.invokers[j+1:]...)
-				}
-				j += 1
-			}
-
-			addedCmdCnt += len(cmds) - 1
-			if len(cmds) > 0 {
-				result = append(result, cmds...)
+			if !deleted && len(cmds) == 1 {
+				continue
 			}
-			if deleted {
-				originDeleted = true
-				break
-			} else {
-				originPosDelta += posDelta
+			if finished {
+				self.invokers = append(self.invokers[0:j], self.invokers[j+1:]...)
 			}
+			blended = cmds
+			originDeleted = deleted
+			originPosDelta = posDelta
+			break
 		}
+		result = append(result, blended...)
+		addedCmdCnt := len(blended) - 1
 
 		if originDeleted || originPosDelta != 0 {
 			changed = true
-- 
2.43.0


From 5779bb2cce2906dc72018cd4379deaab9b8323f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:11 +0000
Subject: [PATCH 55/62] fix: join.run went on and succeeded when the command
 was unknown or failed

---
 pkg/mods/builtin/join.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index 92aabcf..a37ad67 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -117,8 +117,10 @@ func JoinRun(
 		for i, key := range keys {
 			args = append(args, key+"="+vals[i])
 		}
-		cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
-			true, cc, env, nil, args...)
+		if !cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
+			true, cc, env, nil, args...) {
+			return currCmdIdx, false
+		}
 		if !iter.next() {
 			break
 		}
-- 
2.43.0


From 675bd54f158422f48416acd8ffe3465f7e9a8ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:12 +0000
Subject: [PATCH 56/62] fix: join.new with a range whose step is not positive
 never ended

---
 pkg/mods/builtin/join.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index a37ad67..77acdb6 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -35,6 +35,13 @@ func JoinNew(
 			"need key or values"))
 	}
 
+	checkRange := func(valid bool) {
+		if !valid {
+			panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+				fmt.Sprintf("range '%s' is invalid, should be [start,end] or [start,end,step]", val)))
+		}
+	}
+
 	vals := []string{}
 	if strings.HasPrefix(val, "[") && strings.HasSuffix(val, "]") && strings.Count(val, ",") <= 2 && strings.Count(val, ",") >= 1 {
 		i := strings.Index(val, ",")
@@ -50,16 +57,18 @@ func JoinNew(
 			stepStr = "1"
 		}
 		if strings.Contains(val, ".") {
-			start, _ := strconv.ParseFloat(startStr, 64)
-			end, _ := strconv.ParseFloat(endStr, 64)
-			step, _ := strconv.ParseFloat(stepStr, 64)
+			start, err1 := strconv.ParseFloat(startStr, 64)
+			end, err2 := strconv.ParseFloat(endStr, 64)
+			step, err3 := strconv.ParseFloat(stepStr, 64)
+			checkRange(err1 == nil && err2 == nil && err3 == nil && start+step > start)
 			for ; start <= end; start += step {
 				vals = append(vals, fmt.Sprintf("%f", start))
 			}
 		} else {
-			start, _ := strconv.Atoi(startStr)
-			end, _ := strconv.Atoi(endStr)
-			step, _ := strconv.Atoi(stepStr)
+			start, err1 := strconv.Atoi(startStr)
+			end, err2 := strconv.Atoi(endStr)
+			step, err3 := strconv.Atoi(stepStr)
+			checkRange(err1 == nil && err2 == nil && err3 == nil && step > 0)
 			for ; start <= end; start += step {
 				vals = append(vals, strconv.Itoa(start))
 			}
-- 
2.43.0


From e86bc3200eda9edea488623adc6eeb121f3fcb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:47 +0000
Subject: [PATCH 57/62] fix: a join.run made its session record corrupted, a
 session which succeeded was shown as failed

---
 pkg/mods/builtin/join.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index 77acdb6..180ca3c 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -119,6 +119,14 @@ func JoinRun(
 		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
 			"can't execute null ticat command"))
 	}
+
+	// In the session record it's one command, those it runs are not commands of the flow
+	status := cc.FlowStatus
+	cc.FlowStatus = nil
+	defer func() {
+		cc.FlowStatus = status
+	}()
+
 	iter := newJoinKvsIter(kvs)
 	for {
 		args := []string{cmd}
-- 
2.43.0


From b724b79387ffa1f27092604a16efa88fc3df0279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:13 +0000
Subject: [PATCH 58/62] fix: env.reset created the excluded keys that had no
 value

---
 pkg/mods/builtin/env.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/env.go b/pkg/mods/builtin/env.go
index 95efeba..14a544c 100644
--- a/pkg/mods/builtin/env.go
+++ b/pkg/mods/builtin/env.go
@@ -321,7 +321,10 @@ func ResetSessionEnv(
 	if len(excludeStr) != 0 {
 		listSep := env.GetRaw("strs.list-sep")
 		for _, key := range strings.Split(excludeStr, listSep) {
-			excludes[key] = env.GetRaw(key)
+			val, ok := env.GetEx(key)
+			if ok {
+				excludes[key] = val.Raw
+			}
 		}
 	}
 
-- 
2.43.0


From d22939d7f53e941146cf0a3fe280b867017d6829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:15 +0000
Subject: [PATCH 59/62] fix: retrying a session rendered the values of its flow
 as templates

---
 pkg/core/model/cmd.go      | 8 ++++++--
 pkg/core/model/executed.go | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index e677d93..c129490 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -835,10 +835,14 @@ func (self *Cmd) RenderedFlowStrs(
 		flowStrs, masks, _ = self.adhotFlow(argv, cc, env)
 	}
 
-	flow, flowFullyRendered := RenderTemplateStrLines(flowStrs, "flow", self, argv, env, allowFlowTemplateRenderError)
+	flow, flowFullyRendered := flowStrs, true
+	if masks == nil {
+		// A masked flow is an executed one, it should be as it was
+		flow, flowFullyRendered = RenderTemplateStrLines(flowStrs, "flow", self, argv, env, allowFlowTemplateRenderError)
+	}
 	fullyRendered = macrosFullyRendered && flowFullyRendered
 	if fullyRendered {
-		if masks != nil && !cc.Blender.IsEmpty() {
+		if len(masks) != 0 && !cc.Blender.IsEmpty() {
 			panic(fmt.Errorf("[Cmd.RenderedFlowStrs] can't use blender on a masked flow"))
 		}
 		flow = self.invokeBlender(cc, env, flow)
diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index ef7c6d5..5bebedb 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -132,6 +132,7 @@ func ParseExecutedFlow(path ExecutedStatusFilePath) (lastActiveTs time.Time, exe
 }
 
 func (self *ExecutedFlow) GenExecMasks() (masks []*ExecuteMask) {
+	masks = []*ExecuteMask{}
 	for _, cmd := range self.Cmds {
 		if cmd.IsDelay {
 			// The sub flow of an async task has the task itself and nothing else
-- 
2.43.0


From fdd51c38b98f193bec381d5266c803474678a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:16 +0000
Subject: [PATCH 60/62] fix: a value including its own template key hung ticat

---
 pkg/core/model/template.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/core/model/template.go b/pkg/core/model/template.go
index 7b6686f..609e2b6 100644
--- a/pkg/core/model/template.go
+++ b/pkg/core/model/template.go
@@ -143,6 +143,9 @@ func tryRenderTemplate(
 	templBracketLeft := cmd.owner.Strs.FlowTemplateBracketLeft
 	templBracketRight := cmd.owner.Strs.FlowTemplateBracketRight
 
+	// The text after the values being rendered, map[key]text-size
+	rendering := map[string]int{}
+
 	findPos := 0
 	for {
 		str := in[findPos:]
@@ -156,6 +159,18 @@ func tryRenderTemplate(
 			break
 		}
 		key := tail[0:j]
+		rest := len(tail) - j - len(templBracketRight)
+		if size, ok := rendering[key]; ok && rest >= size {
+			// The value of this key has the key itself in it, can't be rendered
+			hasError = true
+			if allowError {
+				findPos += i + len(templBracketLeft) + j + len(templBracketRight)
+				continue
+			}
+			panic(fmt.Errorf("render %s template failed, cmd: '%s', the value of '%s' includes itself",
+				targetName, cmd.owner.DisplayPath(), key))
+		}
+		rendering[key] = rest
 		var valStr string
 		val, ok := env.GetEx(key)
 		valStr = val.Raw
-- 
2.43.0


From e034f986e5e69574059c138940588263f768b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:45 +0000
Subject: [PATCH 61/62] fix: error messages with lines like the marks broke the
 session record

---
 pkg/core/model/executing.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/core/model/executing.go b/pkg/core/model/executing.go
index f5a8f65..4264f11 100644
--- a/pkg/core/model/executing.go
+++ b/pkg/core/model/executing.go
@@ -113,6 +113,10 @@ func (self *ExecutingFlow) OnCmdFinish(flow *ParsedCmds, index int, env *Env, su
 
 	if err != nil {
 		errLines := strings.Split(err.Error(), "\n")
+		for i, line := range errLines {
+			// The message could have lines same as the marks
+			errLines[i] = StatusFileIndent + line
+		}
 		buf.Write([]byte(markedContent("error", self.level, errLines...)))
 	}
 
-- 
2.43.0


From c98d51ae53a4f21dd4405fce86dd1e827701fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:46 +0000
Subject: [PATCH 62/62] fix: after the interactive mode in a nested call
 nothing paused any more and no record was written

---
 pkg/core/model/proto.go         | 19 +++++++++++++++++++
 pkg/mods/builtin/interactive.go |  6 ++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index bf9c6b8..c202e5b 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -189,6 +189,25 @@ func saveSessionLayerToFile(env *Env, sessionPath string, sep string) {
 	saveEnvToFile(env.GetLayer(EnvLayerSession), sessionPath, sep, nil, false, true)
 }
 
+// The file could have a value of this process after it's deleted here, the others using the file should not see it
+func DeleteFromSessionFile(env *Env, key string) {
+	sessionDir := env.GetRaw("session")
+	sessionFileName := env.GetRaw("strs.session-env-file")
+	if len(sessionDir) == 0 || len(sessionFileName) == 0 {
+		return
+	}
+	sep := env.GetRaw("strs.env-kv-sep")
+	path := filepath.Join(sessionDir, sessionFileName)
+
+	// The mark can't be in a line, so the lines with real deletion marks are kept
+	loaded := NewEnv()
+	LoadEnvFromFile(loaded, path, sep, "\n")
+	if loaded.Has(key) {
+		loaded.Delete(key)
+		saveEnvToFile(loaded, path, sep, nil, false, true)
+	}
+}
+
 func loadEnvFromSessionFile(env *Env, path string, sep string, delMark string) {
 	session := env.GetLayer(EnvLayerSession)
 
diff --git a/pkg/mods/builtin/interactive.go b/pkg/mods/builtin/interactive.go
index 7377ec3..cb49daf 100644
--- a/pkg/mods/builtin/interactive.go
+++ b/pkg/mods/builtin/interactive.go
@@ -16,6 +16,10 @@ func InteractiveMode(cc *model.Cli, env *model.Env, exitStr string) {
 	cc = cc.CopyForInteract()
 	sessionEnv := env.GetLayer(model.EnvLayerSession)
 	sessionEnv.SetBool("sys.interact.inside", true)
+	defer func() {
+		sessionEnv.Delete("sys.interact.inside")
+		model.DeleteFromSessionFile(sessionEnv, "sys.interact.inside")
+	}()
 
 	seqSep := env.GetRaw("strs.seq-sep")
 	kvSep := env.GetRaw("strs.env-kv-sep")
@@ -159,8 +163,6 @@ func InteractiveMode(cc *model.Cli, env *model.Env, exitStr string) {
 		//cc.Screen.Print(display.ColorExplain("(ctl-c to leave)\n", env))
 	}
 
-	sessionEnv.GetLayer(model.EnvLayerSession).Delete("sys.interact.inside")
-
 	file, err := os.Create(historyDir)
 	if err != nil {
 		panic(fmt.Errorf("[InteractMode] error writing history file: %v", err))
-- 
2.43.0

