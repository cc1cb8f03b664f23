#!/bin/bash
# ./check.sh <ID> [quick|thorough]   decide one property on /repo's working tree
# ./check.sh replay <FILE>           run one recorded case again
# ./check.sh build                   build only
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true
MAIN=harness/target/main ALT=harness/target/memchr
build() { # DIR PROFILE CARGO-FLAGS...
    local dir=$1 profile=$2
    shift 2
    mkdir -p "$dir"
    cargo build --profile $profile --offline --locked --manifest-path harness/Cargo.toml \
        --target-dir "$dir" "$@" >"$dir/log" 2>&1
}
build $ALT plain --features memchr &
build $MAIN release
main=$?
wait %1
alt=$?
for f in $main:$MAIN $alt:$ALT; do
    [ "${f%%:*}" = 0 ] || {
        cat "${f#*:}/log" >&2
        echo "check error: the harness does not build against /repo" >&2
        exit 2
    }
done
case "${1:-}" in
build) exit 0 ;;
replay)
    bin=$MAIN/release/iri-verif
    grep -q '"configuration": "memchr"' "$2" && bin=$ALT/plain/iri-verif
    exec $bin replay "$2"
    ;;
esac
mkdir -p evidence
rm -f "evidence/.$1.memchr"
# C21 compares the configurations by itself.
[ "$1" = C21 ] || $ALT/plain/iri-verif check "$1" --tier "${2:-${VERIF_TIER:-quick}}" || exit
exec $MAIN/release/iri-verif check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
