id="c15-bg-shares-saved-layer"; prop="C15"
needs="a saved key, which the main flow removes with env.rm after a command was scheduled"
breaks="The background command's env shares the layer of saved values with the main flow: a removal by the main flow is visible to the delayed command."
edits=[("pkg/core/model/env.go","""	if self.parent != nil {
		parent = self.parent.Clone()
	}
""","""	if self.parent != nil {
		// The values from files never change
		if parent = self.parent; parent.ty != EnvLayerPersisted {
			parent = parent.Clone()
		}
	}
""")]
demo='''
mod kv 'grep my.opt "$1/env" >> $LOG'
mod kn 'sleep 0'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T env.set key=my.opt value=a : env.save > $S/out 2>&1 || die save
$T kv %delay=1s : env.rm key=my.opt : kn > $S/out 2>&1
cat $LOG
grep -q "my.opt=a" $LOG || { cat $S/out; die "the delayed command lost a value which was removed by the main flow later"; }
'''
