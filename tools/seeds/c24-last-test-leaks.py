id="c24-last-test-leaks"; prop="C24"
needs="selftest with at least two tests, of which the last one changes the env, and a command behind the selftest"
breaks="The changes of the last test of a sequential selftest are seen by the command behind the selftest."
edits=[("pkg/core/execute/executor.go","		if cc.ForestMode.AtForestTopLvl(env) {\n","		if cc.ForestMode.AtForestTopLvl(env) && i+1 != len(flow.Cmds) {\n")]
demo='''
mod ta 'echo ta >> $LOG' 'tags = selftest'
mod tb 'echo tb >> $LOG; echo my.key=left >> $1/env' 'tags = selftest'
mod after 'grep my.key $1/env >> $LOG; echo after >> $LOG'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T selftest match-source=mods : after > $S/out 2>&1 || { cat $S/out; die run; }
cat $LOG
[ "$(grep -c '^t[ab]$' $LOG)" = 2 ] || { cat $S/out; die "tests did not run"; }
grep -q my.key $LOG && die "the changes of a test are seen behind the selftest"
exit 0
'''
