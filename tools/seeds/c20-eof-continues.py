id="c20-eof-continues"; prop="C20"
needs="the end of the input at a pause"
breaks="When the input ends at a pause, the execution goes on without the user's choice."
edits=[("pkg/core/execute/interactive.go","""		if err != nil {
			panic(fmt.Errorf("[readFromStdin] read from stdin failed: %v", err))
		}
		if len(lineBytes) == 0 {
			continue
		}
""","""		if err == io.EOF && len(lineBytes) == 0 {
			return BPAContinue
		}
		if err != nil {
			panic(fmt.Errorf("[readFromStdin] read from stdin failed: %v", err))
		}
		if len(lineBytes) == 0 {
			continue
		}
"""),("pkg/core/execute/interactive.go","	\"fmt\"\n	\"os\"\n","	\"fmt\"\n	\"io\"\n	\"os\"\n")]
demo='''
mod ka 'echo a >> $LOG'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T break.at break-points=ka : ka : dummy > $S/out 2>&1 < /dev/null
cat $LOG
[ -s $LOG ] && die "the command was executed without being asked for"
true
'''
