id="c17-latest-started"; prop="C17"
needs="background.wait.last while the last scheduled command has not begun yet and an earlier one has"
breaks="background.wait.last waits for the last started command instead of the last scheduled one, so it returns before the named command has ended."
edits=[("pkg/core/model/bg_tasks.go","	tid = self.tids[len(self.tids)-1]\n","""	tid = self.tids[len(self.tids)-1]
	for i := len(self.tids) - 1; i >= 0; i-- {
		if self.tasks[self.tids[i]].GetStat().Started {
			tid = self.tids[i]
			break
		}
	}
""")]
demo='''
mod ka 'echo ka >> $LOG'
mod kb 'echo kb >> $LOG'
mod kc 'echo kc >> $LOG'
mod kn 'sleep 0.5'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T ka %delay=0 : kb %delay=2s : kn : background.wait.last : kc > $S/out 2>&1 || die run
cat $LOG
[ "$(tr '\\n' ' ' < $LOG)" = "ka kb kc " ] || die "wait.last did not wait for the last one"
'''
