#!/bin/bash
# check.sh ID: decides one property on /repo's working tree (VERIF_SEED, VERIF_TIER).
# Exit 0: held on every case. Exit 1: VIOLATION line. Exit 2: the check itself failed.
id=$1
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset VERIF_PART VERIF_RACE VERIF_RACE_BIN VERIF_BUDGET_S VERIF_SHRINK VERIF_SCALE
also= more=
case $id in
C19) h=rd ;;
C20) h=net more=gpgpdump ;;
C21) h=net ;;
C22) h=cli more=gpgpdump ;;
C17) h=dump more=dump-race also=cli ;;
C06) h=dump more=gpgpdump also="net cli" ;;
C01 | C14 | C16 | C18) h=dump also=cli ;;
*) h=dump ;;
esac
bash "$root/build.sh" $h $more $also || { echo "$id: build failed" >&2; exit 2; }
. /opt/vp/env.sh
[ "$more" = gpgpdump ] && export VERIF_GPGPDUMP=$root/build/gpgpdump
[ "$more" = dump-race ] && export VERIF_RACE_BIN=$root/build/dump-race
export VERIF_ALSO=$also
exec "$root/build/$h" run "$id"
