id="c10-error-in-subflow"; prop="C10"
needs="a command which fails inside a sub-flow, the failure allowed, and commands behind it"
breaks="The record of a session can't be read behind an error inside a sub-flow: a session which succeeded is shown as broken."
edits=[("pkg/core/model/executing.go","""markedContent("error", self.level, errLines...)""","""markedContent("error", 0, errLines...)""")]
demo='''
mod kf 'exit 3'
mod kb 'echo kb >> $LOG'
printf 'flow = noop : kf\\n' > $S/mods/kin.tiflow
$T hub.add.local path=$S/mods >/dev/null || die setup
$T kin %err=ok : kb > $S/out 2>&1 || { cat $S/out; die run; }
$T sessions.last > $S/out 2>&1
cat $S/out
grep -q 'corrupt\\|incompleted\\|failed' $S/out && die "the session is shown as failed"
grep -q 'OK\\|done' $S/out || die "the session is not shown as done"
exit 0
'''
