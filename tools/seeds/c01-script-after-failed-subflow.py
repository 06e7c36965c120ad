id="c01-script-after-failed-subflow"; prop="C01"
needs="a command having both a sub-flow and a script, whose sub-flow fails quietly (a quiet-error command in it), called with %err=ok"
breaks="The command's own script is run although its sub-flow failed before it."
edits=[("pkg/core/model/cmd.go","""	succeeded = self.executeFlow(argv, cc, env, mask)
	if !succeeded {
		return false
	}
""","""	succeeded = self.executeFlow(argv, cc, env, mask)
	if !succeeded && !allowError {
		return false
	}
""")]
demo='''
mod kq 'echo kq >> $LOG; exit 3' 'quiet-error = true'
mod kf 'echo kf >> $LOG' 'flow = kq'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T kf %err=ok : echo message=hi > $S/out 2>&1
cat $LOG
grep -q kq $LOG || die "kq was not run"
grep -q kf $LOG && die "the script of kf was run after its sub-flow failed"
'''
