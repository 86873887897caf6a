#!/bin/bash
# usage: check.sh <core|full|serde> <property id>   run one check (VERIF_SEED, VERIF_TIER)
#        check.sh <core|full|serde> build           build only
#        check.sh <core|full|serde> replay <file>   re-run one recorded case
# Builds the harness from /repo's working tree and runs it. Exit 0: held. Exit 1: VIOLATION
# printed. Anything else: the check itself could not run.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export OPENBLAS_NUM_THREADS=1
unset RUSTFLAGS CARGO_BUILD_TARGET
crate=$1
what=$2
export CARGO_TARGET_DIR="$here/target/$crate"
mkdir -p "$CARGO_TARGET_DIR" || exit 2

cd "$here/$crate" || exit 2

# Freshness by content, not by modification time.
sum=$(find /repo/src "$here/$crate" "$here/pbt" "$here/shim" "$here/rstat_full" -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 \
    | sort -z | xargs -0 sha256sum | sha256sum)
stamp="$CARGO_TARGET_DIR/.source-sum"
if [ -e "$stamp" ] && [ "$(cat "$stamp")" != "$sum" ]; then
    cargo clean --offline --quiet -p "${crate}_harness" >/dev/null 2>&1
    cargo clean --offline --quiet -p pbt >/dev/null 2>&1
    cargo clean --offline --quiet -p spaces >/dev/null 2>&1
    cargo clean --offline --quiet -p rstat >/dev/null 2>&1
fi

log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --offline --locked >"$log" 2>&1; then
    grep -E '^error' -A 12 "$log" | head -60 >&2
    echo "the harness does not build against /repo's working tree (full log: $log)" >&2
    exit 2
fi
printf '%s\n' "$sum" >"$stamp"

bin="$CARGO_TARGET_DIR/debug/${crate}_harness"
case "$what" in
build) exit 0 ;;
replay) "$bin" replay "$3" ;;
*) "$bin" check "$what" ;;
esac
st=$?
[ $st -eq 0 ] || [ $st -eq 1 ] || { echo "check ended with status $st" >&2; st=2; }
exit $st
