id="c12-remove-by-prefix"; prop="C12"
needs="two sessions of the same second where one pid begins with the other (or an id given in part)"
breaks="Removing a session by id removes other sessions whose id begins with it."
edits=[("pkg/core/model/session.go","if len(mustMatchDirName) != 0 && dir != mustMatchDirName {","if len(mustMatchDirName) != 0 && !strings.HasPrefix(dir, mustMatchDirName) {")]
demo='''
$T dummy : dummy > $S/out 2>&1 || die setup
R=$S/bin/ticat.data/sessions
d=$(ls $R | head -1)
[ -n "$d" ] || die setup2
mv $R/$d $R/20240101-101010.41234567
cp -r $R/20240101-101010.41234567 $R/20240101-101010.412345678
$T sessions.remove session-id=20240101-101010.41234567 > $S/out 2>&1
[ -d $R/20240101-101010.412345678 ] || { cat $S/out; die "another session was removed"; }
'''
