#!/bin/bash
# replay.sh FILE: evaluates one saved case on /repo's working tree.
root=$(cd "$(dirname "$0")" && pwd)
id=$(sed -n 's/^ *"property": "\(C[0-9]*\)".*/\1/p' "$1" | head -1)
h=$(sed -n 's/^ *"bin": "\([a-z-]*\)".*/\1/p' "$1" | head -1)
[ -n "$id" ] && [ -n "$h" ] || { echo "not a saved case: $1" >&2; exit 2; }
bash "$root/build.sh" $h gpgpdump || exit 2
. /opt/vp/env.sh
VERIF_ROOT=$root VERIF_GPGPDUMP=$root/build/gpgpdump exec "$root/build/$h" replay "$1"
