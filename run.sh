#!/bin/bash
# run.sh setup | check <property> quick|thorough | replay <property> <tier> <index>
# Always rebuilds from /repo's current working tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
mkdir -p work evidence replays
log=work/build.$1.$2.log
build() {
    (cd mc && cargo build --offline --locked --target-dir "$V/target") >"$log" 2>&1 || {
        echo "build failed:"; tail -40 "$log"; exit 2; }
}
# The programs of the repository: with run-time checks, and ending on a panic as the release build does.
# Only their clock and the address they listen on are replaced, by a library loaded before libc.
programs() {
    CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_PANIC=abort \
        cargo build --offline --locked --manifest-path /repo/Cargo.toml "$@" --target-dir "$V/target/repo" >"$log" 2>&1 || {
        echo "build failed:"; tail -40 "$log"; exit 2; }
    [ target/shim.so -nt mc/shim.c ] || gcc -O2 -fPIC -shared -o target/shim.so mc/shim.c -ldl || exit 2
}
case "$1" in
    setup) build; programs -p noodle-cli -p noodle-webapp ;;
    check|replay)
        build
        case "$2" in
            C17|C18|C19|C21|C22|C24) programs -p noodle-webapp ;;
            C20) programs -p noodle-cli ;;
        esac
        exec "$V/target/debug/noodle-mc" "$@" ;;
    *) echo "usage: $0 setup | check <property> quick|thorough | replay <property> <tier> <index>"; exit 2 ;;
esac
