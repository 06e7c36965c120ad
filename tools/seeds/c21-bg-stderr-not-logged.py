id="c21-bg-stderr-not-logged"; prop="C21"
needs="a background command which writes to stderr"
breaks="The log of a background command misses what it wrote to stderr."
edits=[("pkg/core/model/bg_tasks.go","""		if self.CmdStderr != nil {
			cmd.Stderr = io.MultiWriter(self.CmdStderr, logger)
		} else {
""","""		if self.CmdStderr != nil && self.CmdStderr != self.CmdStdout {
			cmd.Stderr = io.MultiWriter(self.CmdStderr, logger)
		} else {
""")]
demo='''
mod ke 'echo to-out; echo to-err >&2'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T ke %delay=0 : dummy > $S/out 2>&1 || die run
cat $(find $S/bin/ticat.data/sessions -type f -name '*ke*')
grep -q to-err $(find $S/bin/ticat.data/sessions -type f -name '*ke*') || die "stderr of the background command is not in its log"
'''
