id="c20-step-after-lost"; prop="C20"
needs="a break-after point, stepping there ('d')"
breaks="Stepping at a pause after a command behaves like continue: the next command is not paused at."
edits=[("pkg/core/execute/interactive.go","	if bpa == BPAStepToNext {\n		bpa = BPAStepOver\n	}\n","	if bpa == BPAStepToNext {\n		bpa = BPAContinue\n	}\n")]
demo='''
mod ka 'echo a >> $LOG'
mod kb 'echo b >> $LOG'
$T hub.add.local path=$S/mods >/dev/null || die setup
( echo d; sleep 1; echo q ) | $T break.after break-points=ka : ka : kb : dummy > $S/out 2>&1
cat $LOG
grep -q a $LOG || { cat $S/out; die "ka not executed"; }
grep -q b $LOG && die "no pause before the next command"
true
'''
