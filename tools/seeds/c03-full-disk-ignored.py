id="c03-full-disk-ignored"; prop="C03"
needs="a write error (full disk, size limit) while the environment is saved"
breaks="The env is written through a buffer whose flush error is lost, so after a write error a partial environment replaces the saved one."
edits=[("pkg/core/model/proto.go","	sort.Strings(keys)\n	for _, k := range keys {\n		v := env.GetRaw(k)\n","	sort.Strings(keys)\n	buf := bufio.NewWriter(writer)\n	defer buf.Flush()\n	for _, k := range keys {\n		v := env.GetRaw(k)\n"),
("pkg/core/model/proto.go","fmt.Fprintf(writer, \"%s%s%s\\n\", k, sep, v)","fmt.Fprintf(buf, \"%s%s%s\\n\", k, sep, v)"),
("pkg/core/model/proto.go","import (\n	\"fmt\"","import (\n	\"bufio\"\n	\"fmt\"")]
demo='''
E=$S/bin/ticat.data/bootstrap.env
$T env.set key=zz.opt value=kept : env.save >/dev/null 2>&1 || die setup
for i in $(seq 100 199); do echo "my.key$i=$(printf 'x%.0s' $(seq 50))"; done > $S/e
cat $S/e $E > $S/e2 && cp $S/e2 $E
( ulimit -f 4; $T env.save > $S/out 2>&1 )
rc=$?
grep -q "^zz.opt=kept" $E && grep -q my.key199 $E || { wc -c $S/e2 $E; die "the saved environment is damaged by a failed save ($rc)"; }
'''
