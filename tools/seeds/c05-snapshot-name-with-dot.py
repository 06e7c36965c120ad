id="c05-snapshot-name-with-dot"; prop="C05"
needs="two snapshots whose names differ only after a dot"
breaks="Snapshots named rel.1 and rel.2 are stored in the same file: saving one replaces the other."
edits=[("pkg/mods/builtin/env_snapshot.go","	return filepath.Join(dir, name) + ext\n","	return filepath.Join(dir, strings.TrimSuffix(name, filepath.Ext(name))) + ext\n")]
demo='''
mod kv 'grep my.opt "$1/env"'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T env.set key=my.opt value=a : env.snapshot.save snapshot-name=rel.1 > $S/out 2>&1 || die save1
$T env.set key=my.opt value=b : env.snapshot.save snapshot-name=rel.2 > $S/out 2>&1 || die save2
$T env.snapshot.load rel.1 : kv > $S/out 2>&1 || die load
cat $S/out
grep -q "my.opt=a" $S/out || die "snapshot rel.1 does not have its value"
'''
