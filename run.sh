#!/bin/bash
# run.sh ID TIER: build the explorer against /repo and run one check.
# run.sh replay FILE: run the execution recorded in a replay file again.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_TARGET_DIR
id=$1
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p evidence
case $id in
C16 | C17 | C22) exec python3 gen/check.py "$id" "$tier" ;;
C25 | C26) exec python3 gen/machines.py "$id" "$tier" ;;
replay)
    case $(python3 -c 'import json, sys; print(json.load(open(sys.argv[1]))["property"])' "$2") in
    C16 | C17 | C22) exec python3 gen/check.py replay "$2" ;;
    C25 | C26) exec python3 gen/machines.py replay "$2" ;;
    esac
    ;;
esac
log=$(mktemp)
if ! cargo build --release --offline --locked --manifest-path mc/Cargo.toml >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the explorer does not build" >&2
    exit 2
fi
rm -f "$log"
if [ "$id" = build ]; then
    exit 0
fi
if [ "$id" = replay ]; then
    exec mc/target/release/mc replay "$2"
fi
exec mc/target/release/mc run "$id" "$tier"
