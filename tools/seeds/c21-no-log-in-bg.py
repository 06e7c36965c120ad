id="c21-no-log-in-bg"; prop="C21"
needs="a script run by a flow which runs in the background"
breaks="Scripts of background commands have no log."
edits=[("pkg/core/model/cmd.go","""	if env.GetBool("sys.interact.inside") {
		return ""
	}
	sessionDir""","""	if env.GetBool("sys.interact.inside") || env.GetBool("sys.in-bg-task") && env.LayerType() == EnvLayerSubFlow {
		return ""
	}
	sessionDir""")]
demo=''
