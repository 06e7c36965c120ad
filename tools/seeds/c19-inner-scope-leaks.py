id="c19-inner-scope-leaks"; prop="C19"
needs="a flow inside a flow, a value set in the inner flow's own scope, and a command of the outer flow after it"
breaks="A value set in the scope of an inner sub-flow is still there for the later commands of the outer sub-flow."
edits=[("pkg/core/model/cmd.go","	flowEnv := env.NewLayer(EnvLayerSubFlow)\n","	flowEnv := env.GetOrNewLayer(EnvLayerSubFlow)\n")]
demo='''
mod kv 'grep my.opt "$1/env" >> $LOG; echo kv >> $LOG'
printf 'flow = {my.opt=in} kv\\n' > $S/mods/kin.tiflow
printf 'flow = kin : kv\\n' > $S/mods/kout.tiflow
$T hub.add.local path=$S/mods >/dev/null || die setup
$T kout : kv > $S/out 2>&1 || { cat $S/out; die run; }
cat $LOG
[ "$(tr '\\n' ' ' < $LOG)" = "my.opt=in kv kv kv " ] || die "a value of the inner flow is visible outside"
'''
