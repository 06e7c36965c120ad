id="c18-quiet-hook-failure"; prop="C18"
needs="an exit hook which fails without raising an error (quiet-error)"
breaks="A failing hook is not reported in the exit status when its command has quiet-error."
edits=[("pkg/ticat/ticat.go","	if !succeeded {\n		// TODO: better error handle\n","	if !succeeded && ticat.cc.Executor == nil {\n		// TODO: better error handle\n")]
demo='''
mod kh 'echo hook >> $LOG; exit 3' 'quiet-error = true'
mod ka 'echo a >> $LOG'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T hook.exit flow=kh : ka : dummy > $S/out 2>&1
rc=$?
cat $LOG
grep -q hook $LOG || die "hook not run"
[ $rc != 0 ] || { cat $S/out; die "the failure of the hook is not reported"; }
'''
