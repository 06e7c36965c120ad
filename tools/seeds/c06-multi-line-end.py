id="c06-multi-line-end"; prop="C06"
needs="a flow file with a flow of several lines, and setting its help text"
breaks="Setting the help text of a flow with several lines joins the last line of the flow with what is behind it in the file."
edits=[("pkg/mods/persist/meta_file/meta_file.go","""			lines = lines[1:]
			for i, line := range lines {
""","""			for i, line := range lines[1:] {
""")]
demo='''
mod ka 'echo ka >> $LOG'
mod kb 'echo kb >> $LOG'
mkdir -p $S/bin/ticat.data/flows
printf 'flow = ka : \\\\\\n  kb\\nhelp = first\\n' > $S/bin/ticat.data/flows/kf.tiflow
$T hub.add.local path=$S/mods >/dev/null || die setup
$T kf > $S/out 2>&1 || { cat $S/out; die before; }
: > $LOG
$T flow.set-help-str cmd-path=kf help-str=second > $S/out 2>&1 || { cat $S/out; die set-help; }
cat $S/bin/ticat.data/flows/kf.tiflow
$T kf > $S/out 2>&1 || { cat $S/out; die "the flow can't be run any more"; }
cat $LOG
[ "$(tr '\\n' ' ' < $LOG)" = "ka kb " ] || die "the flow is another one"
'''
