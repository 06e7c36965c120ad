id="c08-parent-dir-exists"; prop="C08"
needs="adding a directory whose sub-directory is in the hub already"
breaks="Adding the parent of a listed directory is reported as done but the directory is not in the hub."
edits=[("pkg/mods/builtin/hub.go","	for i, info := range infos {\n		if info.Path == path {\n			if info.OnOff == \"on\" {\n				screen.Print(fmt.Sprintf(\"%s (exists)","	for i, info := range infos {\n		if isInDir(info.Path, path) {\n			if info.OnOff == \"on\" {\n				screen.Print(fmt.Sprintf(\"%s (exists)"),
("pkg/mods/builtin/hub.go","func purgeInactiveRepoFromHub(","""func isInDir(path string, dir string) bool {
	rel, err := filepath.Rel(dir, path)
	return err == nil && !strings.HasPrefix(rel, "..")
}

func purgeInactiveRepoFromHub(""")]
demo='''
mkdir -p $S/all/sub
$T hub.add.local path=$S/all/sub > $S/out 2>&1 || die setup
$T hub.add.local path=$S/all > $S/out 2>&1 || die add
grep -qE "$S/all([^/]|$)" $S/bin/ticat.data/hub/repos.hub || { cat $S/out $S/bin/ticat.data/hub/repos.hub; die "the added directory is not in the hub"; }
'''
