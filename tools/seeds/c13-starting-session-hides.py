id="c13-starting-session-hides"; prop="C13"
needs="listing the sessions while another one is starting: its directory is there, its record not yet"
breaks="A session which is just starting hides all earlier ones from another process."
edits=[("pkg/core/model/session.go","""		if status == nil {
			continue
		}
""","""		if status == nil {
			break
		}
""")]
demo='''
$T dummy : dummy > $S/out 2>&1 || die setup
R=$S/bin/ticat.data/sessions
mkdir $R/20990101-101010.$$
$T sessions > $S/out 2>&1
d=$(ls $R | head -1)
grep -q "$d" $S/out || { cat $S/out; die "the earlier session is not listed"; }
'''
