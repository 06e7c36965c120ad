id="c08-purge-enabled"; prop="C08"
needs="hub.purge with the exact address of a repo which is enabled"
breaks="Purging by exact address removes an enabled repo and its files."
edits=[("pkg/mods/builtin/hub.go","matched := exactMatchHubRepo(infos, findStr); matched && matchedInfo.OnOff != \"on\" {","matched := exactMatchHubRepo(infos, findStr); matched {")]
demo='''
mkdir $S/r && cd $S/r && git init -q . && printf 'help = a repo\\n' > ticat.hub && git add -A && git -c user.name=a -c user.email=a@b commit -qm x || exit 2
git config --global url.$S/m.insteadOf https://github.com/ticat-mods/marsh; mkdir $S/m; ( cd $S/m; git init -q .; echo x > x; git add -A; git -c user.name=a -c user.email=a@b commit -qm x ) || exit 2
cd $S/work
git config --global url.$S/r.insteadOf https://github.com/me/r
$T hub.add 'me/r' > $S/out 2>&1 || { cat $S/out; die setup; }
grep -q "github.com/me/r" $S/bin/ticat.data/hub/repos.hub || { cat $S/out; die setup2; }
$T hub.purge 'https\\://github.com/me/r' > $S/out 2>&1
grep -q "github.com/me/r" $S/bin/ticat.data/hub/repos.hub || die "an enabled repo was purged"
'''
