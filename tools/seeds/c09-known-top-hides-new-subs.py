id="c09-known-top-hides-new-subs"; prop="C09"
needs="adding a repo again (or from another one) after its list got new repos"
breaks="When an address that is listed already comes first, the repos listed by it are not added."
edits=[("pkg/mods/builtin/hub.go","""		if oldList[addr.Str()] {
			continue
		}
""","""		if oldList[addr.Str()] {
			break
		}
""")]
demo='''
git config --global user.name a; git config --global user.email a@b; git config --global init.defaultBranch main
for r in a b; do mkdir $S/$r; ( cd $S/$r && git init -q . && printf 'help = repo %s\\n' $r > hub.ticat && git add -A && git commit -qm x ) || exit 2
git config --global url.$S/$r.insteadOf https://github.com/me/$r; done
git config --global url.$S/m.insteadOf https://github.com/ticat-mods/marsh; mkdir $S/m; ( cd $S/m; git init -q .; echo x > x; git add -A; git -c user.name=a -c user.email=a@b commit -qm x ) || exit 2
cd $S/work
$T hub.add 'me/a' > $S/out 2>&1 || { cat $S/out; die setup; }
printf 'help = repo a\\n[repos]\\nhttps://github.com/me/b = the other\\n' > $S/a/hub.ticat
( cd $S/a && git commit -qam y ) || exit 2
$T hub.add 'me/a' > $S/out 2>&1 || { cat $S/out; die again; }
grep -q "github.com/me/b" $S/bin/ticat.data/hub/repos.hub || { cat $S/out; die "the newly listed repo is not in the hub"; }
'''
