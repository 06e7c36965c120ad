id="c20-interact-stays"; prop="C20"
needs="a pause where the interactive mode is left with dbg.interact.leave, and a later break point"
breaks="After the interactive mode was used at one pause, all later break points are passed without a pause."
edits=[("pkg/mods/builtin/interactive.go","""	sessionEnv.GetLayer(model.EnvLayerSession).Delete("sys.interact.inside")

""",""),("pkg/mods/builtin/interactive.go","""		if err == liner.ErrPromptAborted {
			break
""","""		if err == liner.ErrPromptAborted {
			sessionEnv.GetLayer(model.EnvLayerSession).Delete("sys.interact.inside")
			break
""")]
demo='''
mod ka 'echo a >> $LOG'
mod kb 'echo b >> $LOG'
$T hub.add.local path=$S/mods >/dev/null || die setup
(echo i; sleep 1; echo dbg.interact.leave; sleep 2) | $T break.at break-points=ka,kb : ka : kb > $S/out 2>&1
cat $LOG
grep -q a $LOG || { tail -5 $S/out; die "ka did not run after the interactive mode was left"; }
grep -q b $LOG && die "kb was executed though its break point was not answered"
true
'''
