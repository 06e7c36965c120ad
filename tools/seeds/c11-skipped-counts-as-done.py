id="c11-skipped-counts-as-done"; prop="C11"
needs="a command the user skipped at a break point, a later failure, and a retry"
breaks="A retry treats a command which was skipped at a break point as a succeeded one and does not run it."
edits=[("pkg/core/model/executed.go","		if cmd.Result == ExecutedResultSucceeded {\n","		if cmd.Result == ExecutedResultSucceeded || cmd.Result == ExecutedResultSkipped {\n")]
demo='''
mod ka 'echo ka >> $LOG'
mod kb 'echo kb >> $LOG; [ -f '$S'/ok ]'
$T hub.add.local path=$S/mods >/dev/null || die setup
(echo s; sleep 1; echo c) | $T break.at break-points=ka : ka : kb > $S/out 2>&1 && die "should fail"
cat $LOG
[ "$(cat $LOG)" = kb ] || die "ka was not skipped in the first run"
: > $LOG; touch $S/ok
printf 'c\\nc\\n' | $T sessions.last.retry > $S/out2 2>&1 || { cat $S/out2; die "retry failed"; }
cat $LOG
[ "$(tr '\\n' ' ' < $LOG)" = "ka kb " ] || { cat $S/out $S/out2; die "the retry did not run the skipped command"; }
'''
