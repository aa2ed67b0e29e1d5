#!/bin/bash
# check.sh ID            rebuild the monitor against /repo and run one check
# check.sh --build       only build
# check.sh --replay FILE re-run the case recorded in a replay file
set -u
export HOME=${HOME:-/root}
export PATH="/usr/local/cargo/bin:$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER= LANG=C.UTF-8
export LLVM_SYS_140_PREFIX=/usr/lib/llvm-14 PYO3_PYTHON=/usr/bin/python3.12 PYTHONDONTWRITEBYTECODE=1
export CARGO_TARGET_DIR=/verif/mon/target
export RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG RUST_LOG
cd /verif/mon || exit 3
mkdir -p "$CARGO_TARGET_DIR" /verif/evidence /verif/replays

# The sources are compared by content: restored files can carry any mtime.
sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.json' -o -name '*.py' -o -name '*.rwr' \) -print0 \
  | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
stamp=$CARGO_TARGET_DIR/repo.sha256
exec 9>"$CARGO_TARGET_DIR/build.lock"
flock 9
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    cargo clean --offline -p tket -p tket-qsystem -p mon >/dev/null 2>&1
fi
if ! cargo build --offline >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    tail -50 "$CARGO_TARGET_DIR/build.log"
    echo "ERROR: the monitor does not build against /repo"
    exit 3
fi
echo "$sum" >"$stamp"
flock -u 9
exec 9>&-
case "${1:-}" in
    --build) exit 0 ;;
    --replay) exec "$CARGO_TARGET_DIR/debug/mon" replay "$2" ;;
    *) exec "$CARGO_TARGET_DIR/debug/mon" "$1" ;;
esac
