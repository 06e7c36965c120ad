id="c16-bg-stderr-to-front"; prop="C16"
needs="a background command whose script writes to stderr while the main flow is running"
breaks="What a background command prints to stderr appears immediately, in the middle of the main flow's output."
edits=[("pkg/core/model/cli.go","		NewCmdIO(nil, bgStdout, bgStdout),\n","		NewCmdIO(nil, bgStdout, self.CmdIO.CmdStderr),\n")]
demo='''
mod kb 'echo from-bg >&2'
mod ka 'sleep 1; echo main-end'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T kb %delay=0 : ka > $S/out 2>&1 || die run
cat $S/out
b=$(grep -n '^from-bg' $S/out | head -1 | cut -d: -f1); m=$(grep -n '^main-end' $S/out | head -1 | cut -d: -f1)
[ "$b" -gt "$m" ] || die "output of the background command before its turn"
'''
