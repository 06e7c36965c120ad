id="c24-tagged-parent-hides-subs"; prop="C24"
needs="a test command which has a sub-command that is a test too"
breaks="Tests below a command that is itself a test are not run."
edits=[("pkg/mods/builtin/misc.go","""		*output = append(*output, curr)
	}
	for _, name""","""		*output = append(*output, curr)
		return
	}
	for _, name""")]
demo='''
mkdir $S/mods/ta
mod ta 'echo ta >> $LOG' 'tags = selftest'
mod ta/deep 'echo ta.deep >> $LOG' 'tags = selftest'
mod tb 'echo tb >> $LOG' 'tags = selftest'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T selftest match-source=mods > $S/out 2>&1 || { cat $S/out; die run; }
cat $LOG
[ "$(sort $LOG | tr '\\n' ' ')" = "ta ta.deep tb " ] || { cat $S/out; die "a test was not run"; }
'''
