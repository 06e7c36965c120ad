id="c01-join-no-carry"; prop="C01"
needs="a join of at least two keys with several values each"
breaks="join.run leaves out combinations: once the last key has gone through its values it is not set back."
edits=[("pkg/mods/builtin/join.go","""				iter.ids[i]++
				break
			} else {
				iter.ids[i] = 0
			}
""","""				iter.ids[i]++
				break
			} else if i == 0 {
				iter.ids[i] = 0
			}
""")]
demo='''
mod ka 'echo "$2-$3" >> $LOG' '[args]' "aa = ''" "bb = ''"
$T hub.add.local path=$S/mods >/dev/null || die setup
$T join.new key=aa value=x,y : join.new key=bb value=1,2,3 : join.run cmd=ka > $S/out 2>&1 || { tail $S/out; die failed; }
cat $LOG
[ "$(sort -u $LOG | wc -l)" = 6 ] || die "not all 6 combinations were run"
true
'''
