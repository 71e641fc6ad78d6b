#!/bin/bash
# run.sh ID quick|thorough [N]   run the check of a property
# run.sh replay ID PATH          run one replay file again
# run.sh setup                   build only
set -u
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
export RUSTFLAGS="-Awarnings"
unset CARGO_BUILD_TARGET CARGO_PROFILE_DEV_OPT_LEVEL
mkdir -p /verif/target
cd /verif/harness || exit 2
ulimit -c 0
# Cargo compares modification times; compare contents as well, so that a file
# put back with an old modification time is rebuilt too.
sums=/verif/target/.sums
new=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat $sums 2>/dev/null)" != "$new" ]; then
    for f in /verif/target/debug/.fingerprint/*; do
        case "$(basename "$f")" in vh-* | treeldr* | tldr* | main* | genq* | gent* | genone* | gcgq* | gcgt* | gcgone*) rm -rf "$f" ;; esac
    done
fi
# The command line tool is only needed by the checks that run it.
tool() {
    case "${1:-}${2:-}" in
    setup | P30* | P31* | P32* | replayP30 | replayP31 | replayP32)
        CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 cargo build --offline -q --manifest-path /repo/Cargo.toml -p tldr -p treeldr-gen-rust --bin tldr --bin main
        ;;
    esac
}
if ! { cargo build --offline -q && tool "$@"; } 2>/verif/target/build.log.$$; then
    cat /verif/target/build.log.$$ >&2
    rm -f /verif/target/build.log.$$
    echo "the harness does not build against /repo" >&2
    exit 2
fi
rm -f /verif/target/build.log.$$
printf '%s\n' "$new" > $sums
VH=/verif/target/debug/vh
case "${1:-}" in
setup)
    # The types of P27, P28 and P29.
    $VH prebuild P27 quick
    $VH prebuild P29 quick
    exit 0
    ;;
replay) exec $VH replay "$2" "$3" ;;
*) exec $VH check "$@" ;;
esac
