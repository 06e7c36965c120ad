id="c10-killed-shown-as-done"; prop="C10"
needs="a ticat process which is killed in the middle of its flow, so that its session has no result"
breaks="sessions.done lists the session of a killed process as a succeeded one."
edits=[("pkg/core/model/session.go","if (status.Result == ExecutedResultIncompleted || status.Result == ExecutedResultError) && !includeError {","if (status.Result == ExecutedResultSkipped || status.Result == ExecutedResultError) && !includeError {")]
demo='''
mod ka 'echo ka >> $LOG; kill -9 $PPID; sleep 0.2'
$T hub.add.local path=$S/mods >/dev/null || die setup
( $T ka : echo message=hi > $S/out 2>&1 ) 2>/dev/null
ls $S/bin/ticat.data/sessions
$T sessions.done > $S/out 2>&1
cat $S/out
grep -q "ka" $S/out && die "a killed session is listed as done"
'''
