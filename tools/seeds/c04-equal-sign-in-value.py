id="c04-equal-sign-in-value"; prop="C04"
needs="a saved env value which contains the key-value separator '='"
breaks="The next process reads another key and value than the saved ones."
edits=[("pkg/core/model/proto.go","		i := strings.Index(text, sep)\n","		i := strings.LastIndex(text, sep)\n")]
demo='''
mod kv 'cat "$1/env" | grep my.opt'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T env.set key=my.opt 'value=a=b' : env.save > $S/out 2>&1 || die setup
$T env.set key=my.opt value=c : kv > $S/out 2>&1 || die run
cat $S/out
grep -q "my.opt=c" $S/out || die "the changed value is not there"
grep -q "my.opt=a=b" $S/out && die "the saved value is still there under another key"
'''
