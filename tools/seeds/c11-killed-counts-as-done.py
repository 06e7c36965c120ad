id="c11-killed-counts-as-done"; prop="C11"
needs="ticat is killed while a script runs, and a retry"
breaks="A retry treats a script which never ended as a succeeded one and does not run it again."
edits=[("pkg/core/model/executed.go","""		if cmd.Result == ExecutedResultSucceeded {
""","""		if cmd.Result != ExecutedResultError {
""")]
demo='''
mod ka 'echo ka >> $LOG; [ -f '$S'/ok ] || { kill -9 $PPID; exit 1; }'
mod kb 'echo kb >> $LOG'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T ka : kb > $S/out 2>&1 && die "should be killed"
sleep 0.3
: > $LOG; touch $S/ok
$T sessions.last.retry > $S/out2 2>&1 || { cat $S/out2; die "retry failed"; }
cat $LOG
[ "$(tr '\\n' ' ' < $LOG)" = "ka kb " ] || { cat $S/out2; die "the retry did not run the killed command"; }
'''
