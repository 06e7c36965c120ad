id="c19-add-over-saved"; prop="C19"
needs="a saved value that the session itself has not touched"
breaks="env.add looks only at the values set in the running session, and replaces a saved value."
edits=[("pkg/mods/builtin/env.go","""	env = env.GetLayer(model.EnvLayerSession)
	_, ok := env.GetEx(key)
	if ok {
		cc.Screen.Print(display.ColorError(fmt.Sprintf("env key '%s' already exists\\n", key), env))
""","""	env = env.GetLayer(model.EnvLayerSession)
	ok := false
	names, _ := env.Pairs()
	for _, it := range names {
		ok = ok || it == key
	}
	if ok {
		cc.Screen.Print(display.ColorError(fmt.Sprintf("env key '%s' already exists\\n", key), env))
""")]
demo='''
mod ka 'grep "^vkx=" $1/env >> $LOG; true'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T {vkx=1} env.save >/dev/null 2>&1 || die save
$T noop : env.add key=vkx value=2 %err=ok : ka > $S/out 2>&1
cat $LOG
grep -q "vkx=2" $LOG && die "the saved value was replaced by env.add"
true
'''
