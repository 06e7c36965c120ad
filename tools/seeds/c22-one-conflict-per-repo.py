id="c22-one-conflict-per-repo"; prop="C22"
needs="two modules of the same directory which both conflict with others of the same repo"
breaks="Only one of several conflicting modules of a directory is reported, the others are silently missing."
edits=[("pkg/core/model/errs.go","	list := conflictedMap[source]\n	list = append(list, TolerableErr{err, file, source, reason})\n	conflictedMap[source] = list\n","	conflictedMap[source] = []TolerableErr{{err, file, source, reason}}\n")]
demo='''
mkdir $S/mods2
mod ka 'true'
mod kb 'true'
cp $S/mods/* $S/mods2/
$T hub.add.local path=$S/mods >/dev/null || die setup
$T hub.add.local path=$S/mods2 >/dev/null 2>&1 || die setup2
$T dummy : dummy > $S/out 2>&1
n=0
for k in ka kb; do grep -q "mods2/$k\\|\\b$k\\b" $S/out && n=$((n+1)); done
cat $S/out | cut -c1-200 | head -30
[ $n = 2 ] || die "only $n of the 2 conflicts are reported"
'''
