#!/bin/bash
# build.sh CMD...: builds harness commands (dump, dump-race, rd, net, cli) and the gpgpdump
# command from /repo's working tree into /verif/build. Nothing committed is written.
root=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off
out=$root/build
mkdir -p "$out" || exit 2
exec 9>"$out/.lock"
flock 9 || exit 2
cp "$root/harness/go.mod" "$root/harness/go.sum" "$out/" || exit 2
cd "$root/harness" || exit 2
for c in "$@"; do
	case $c in
	gpgpdump) (cd /repo && cp go.mod "$out/repo.mod" && cp go.sum "$out/repo.sum" &&
		CGO_ENABLED=0 go build -modfile="$out/repo.mod" -o "$out/gpgpdump" .) || exit 2 ;;
	*-race) CGO_ENABLED=1 go build -race -modfile="$out/go.mod" -o "$out/$c" "./cmd/${c%-race}" || exit 2 ;;
	*) go build -modfile="$out/go.mod" -o "$out/$c" "./cmd/$c" || exit 2 ;;
	esac
done
