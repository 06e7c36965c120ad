id="c14-stop-at-first-failure"; prop="C14"
needs="two background commands where the one started first fails"
breaks="After a failed background command the others are not waited for."
edits=[("pkg/mods/builtin/bg_tasks.go","""		if err != nil {
			errs = append(errs, err)
		}
		cc.BgTasks.RemoveTask(tid)
		preTid = tid
""","""		if err != nil {
			errs = append(errs, err)
			if !manual {
				break
			}
		}
		cc.BgTasks.RemoveTask(tid)
		preTid = tid
""")]
demo='''
mod kf 'exit 3'
mod ks 'sleep 1; echo done >> $LOG'
$T hub.add.local path=$S/mods >/dev/null || die setup
$T kf %delay=0 : ks %delay=0 : dummy > $S/out 2>&1 && die "should fail"
cat $LOG
grep -q done $LOG || { cat $S/out; die "ticat ended before its background command"; }
sleep 2
'''
