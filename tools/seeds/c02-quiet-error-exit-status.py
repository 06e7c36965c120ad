id="c02-quiet-error-exit-status"; prop="C02"
needs="a failing command which has quiet-error set in its meta file, run without %err=ok"
breaks="The failure of a quiet-error command counts as a success: ticat exits with 0 although a command failed."
edits=[("pkg/core/model/cmd.go","	return newCurrCmdIdx, ok || allowError\n","	return newCurrCmdIdx, ok || allowError || self.flags.quietError\n")]
demo='''
mod kq 'echo kq >> $LOG; exit 3' 'quiet-error = true'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T echo message=hi : kq > $S/out 2>&1
rc=$?
grep -q kq $LOG || die "kq was not run"
[ $rc != 0 ] || die "a flow with a failed command exits with 0"
'''
