#!/bin/bash
# Run with cwd /repo after the build. Everything happens in a scratch dir.
S=$(mktemp -d /tmp/ticat-demo.XXXXXX)
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/bin/ticat.data/hub" "$S/home" "$S/work" "$S/mods"
cp bin/ticat "$S/bin/ticat" || exit 2
export HOME=$S/home
cd "$S/work" || exit 2
T=$S/bin/ticat
LOG=$S/log
: > "$LOG"
# mod NAME BODY [META...]: a command with a bash script
mod() {
	local n=$1 b=$2
	shift 2
	printf '%s\n' "LOG='$LOG'" "$b" > "$S/mods/$n.bash"
	{ echo "help = script $n"; for l in "$@"; do printf '%s\n' "$l"; done; } > "$S/mods/$n.bash.ticat"
	chmod +x "$S/mods/$n.bash"
}
die() { echo "DEMO: $*"; exit 1; }
