id="c23-no-end-time-on-failure"; prop="C23"
needs="a timed command which fails with its error allowed"
breaks="The end time of a failed command with %err=ok is not recorded: the key is missing or stale."
edits=[("pkg/core/model/cmd.go","	if len(self.autoTimerKeys.End) != 0 {\n","	if ok && len(self.autoTimerKeys.End) != 0 {\n")]
demo='''
mod kt 'exit 3' 'begin-key = my.begin' 'end-key = my.end' 'dur-key = my.dur'
mod kp 'grep "^my\\." "$1/env" >> $LOG'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T kt %err=ok : kp > $S/out 2>&1
cat $LOG
grep -q my.begin $LOG || { cat $S/out; die "no begin time"; }
grep -q my.end $LOG || { cat $S/out; die "no end time"; }
'''
