#!/bin/bash
# check.sh ID [quick|thorough] [options]   run the check of one property (exit 0 / 1)
# check.sh --replay FILE                   re-execute a replay file (exit 1 if the violation shows)
# check.sh --selftest ID [--runs N]        every run twice in different processes, logs compared
# check.sh --build                         build only
# Everything is rebuilt from /repo's current working tree.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export KUBASIM_VERIF=$V CARGO_TARGET_DIR=$V/target CARGO_NET_OFFLINE=true
mkdir -p "$V/target" "$V/evidence" "$V/replays"

build() { # build DIR
    # cargo goes by modification times; a restored or copied tree need not have newer ones.
    local sum
    sum=$( { cd /repo && find Cargo.toml Cargo.lock src viz -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum;
             cd "$V" && find simcore simstd kiss3d vizapp kubasim/src "$1" -type f -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
    local stamp=$V/target/stamp-$1
    if [ "$(cat "$stamp" 2>/dev/null)" = "$sum" ] && [ -x "$V/target/release/$1" ]; then return 0; fi
    rm -f "$stamp"
    ( cd "$V/$1" && cargo clean --offline --release -p kuba -p "$1" >/dev/null 2>&1
      [ "$1" = vizsim ] && cargo clean --offline --release -p vizapp -p kiss3d -p simstd -p simcore >/dev/null 2>&1
      cargo build --offline --release ) >"$V/target/build-$1.log" 2>&1 || {
        tail -60 "$V/target/build-$1.log" >&2
        echo "build of $1 failed" >&2
        return 1
    }
    echo "$sum" >"$stamp"
}
crate() {
    case $1 in
    C11 | C12 | C13 | C18 | C22) echo vizsim ;;
    *) echo kubasim ;;
    esac
}
locked() {
    exec 9>"$V/target/.lock-$1"
    flock 9
    build "$1"
    local rc=$?
    exec 9>&-
    return $rc
}

case ${1:-} in
--build)
    for c in kubasim vizsim; do
        [ -d "$V/$c" ] || continue
        locked $c || exit 2
    done
    ;;
--replay)
    id=$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$2" | head -1)
    c=$(crate "$id")
    locked "$c" || exit 2
    exec "$V/target/release/$c" replay "$2"
    ;;
--selftest)
    c=$(crate "$2")
    locked "$c" || exit 2
    shift
    exec "$V/target/release/$c" selftest "$@"
    ;;
C*)
    id=$1
    tier=${2:-${VERIF_TIER:-quick}}
    shift
    [ $# -gt 0 ] && shift
    c=$(crate "$id")
    locked "$c" || exit 2
    exec "$V/target/release/$c" check "$id" --tier "$tier" "$@"
    ;;
*)
    sed -n '2,6p' "$0"
    exit 2
    ;;
esac
