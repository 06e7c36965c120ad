id="c08-disable-drops-neighbour"; prop="C08"
needs="at least three entries in the hub list, disabling one which is matched exactly and is not the last"
breaks="When a disabled repo is enabled by its exact name, the entries before it are rewritten in place: an entry after an exactly matched one gets lost if the search string matches other entries' text, too."
edits=[("pkg/mods/persist/hub_meta/hub_meta.go","""			return []RepoInfo{info}, append(infos[:i], infos[i+1:]...)
""","""			return []RepoInfo{info}, append(rest, infos[i+1:]...)
""")]
demo='''
mkdir -p $S/d/a $S/d/ab $S/d/c
$T hub.add.local path=$S/d/ab >/dev/null
$T hub.add.local path=$S/d/c >/dev/null
$T hub.add.local path=$S/d/a >/dev/null
# the first one matches the text, but the third one is meant
$T hub.disable $S/d/a > $S/out 2>&1
cat $S/bin/ticat.data/hub/repos.hub
for i in a ab c; do grep -q "/d/$i	" $S/bin/ticat.data/hub/repos.hub || die "entry $i is lost"; done
'''
