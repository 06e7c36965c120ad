id="c07-move-loses-flow"; prop="C07"
needs="moving saved flows to another file system which has no space for them"
breaks="A saved flow is lost: the copy on the other file system fails and the original is removed all the same."
edits=[("pkg/utils/misc.go","""	cmd := exec.Command("mv", src, dest)
	_, err = cmd.Output()
	return err
}
""","""	data, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	err = os.WriteFile(dest, data, 0644)
	os.Remove(src)
	return err
}
""")]
demo='''
big=$(printf 'x%.0s' $(seq 60000))
mkdir -p $S/bin/ticat.data/flows
printf 'help = %s\\nflow = dummy\\n' $big > $S/bin/ticat.data/flows/kbig.tiflow
D=$(mktemp -d /dev/shm/ticat-demo.XXXXXX) || exit 0
trap 'rm -rf "$S" "$D"' EXIT
[ "$(stat -c %d $D)" = "$(stat -c %d $S)" ] && exit 0
( ulimit -f 40; $T flow.move-flows-to-dir.all path=$D > $S/out 2>&1 )
n=0
for f in $S/bin/ticat.data/flows/kbig.tiflow $D/kbig.tiflow; do [ -f $f ] && [ $(wc -c < $f) -gt 60000 ] && n=1; done
[ $n = 1 ] || { ls -l $D $S/bin/ticat.data/flows; cat $S/out; die "the flow is lost"; }
'''
