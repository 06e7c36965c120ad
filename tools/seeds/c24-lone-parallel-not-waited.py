id="c24-lone-parallel-not-waited"; prop="C24"
needs="a parallel selftest which finds exactly one test, and a command behind the selftest"
breaks="A parallel selftest with a single test is over before its test is."
edits=[("pkg/mods/builtin/misc.go","""	if parallel {
		flow = append(flow, "background.wait")
""","""	if parallel && len(result) > 1 {
		flow = append(flow, "background.wait")
""")]
demo='''
mod ta 'sleep 1; echo ta >> $LOG' 'tags = selftest'
mod after 'echo after >> $LOG'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T selftest match-source=mods parallel=true : after > $S/out 2>&1 || { cat $S/out; die run; }
cat $LOG
[ "$(tr '\\n' ' ' < $LOG)" = "ta after " ] || { cat $S/out; die "the selftest was over before its test"; }
'''
