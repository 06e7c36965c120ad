id="c12-other-users-process"; prop="C12"
needs="a running session whose process may not be signalled (started with other rights, sudo)"
breaks="A running session which belongs to another user counts as ended and is cleaned."
edits=[("pkg/utils/misc.go","	case syscall.EPERM:\n		return true, nil\n	}\n	return false, err\n","	case syscall.EPERM:\n		return false, nil\n	}\n	return false, err\n")]
demo='''
$T dummy : dummy > $S/out 2>&1 || die setup
R=$S/bin/ticat.data/sessions
d=$(ls $R | head -1)
mv $R/$d $R/20240101-101010.$$
chmod -R a+rwX $S
id nobody > /dev/null 2>&1 || exit 0
setpriv --reuid=65534 --regid=65534 --clear-groups $T sessions.remove.all > $S/out 2>&1
[ -d $R/20240101-101010.$$ ] || { cat $S/out; die "a running session was removed"; }
'''
