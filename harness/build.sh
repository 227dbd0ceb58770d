#!/bin/bash
# builds the harness against /repo with the instrumentation provided by rt/rt.c
set -e
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-$(cd .. && pwd)/target}"
repo=$(sed -n 's/^orx-concurrent-vec = { path = "\(.*\)" }.*/\1/p' Cargo.toml)
bash ../tools/fresh.sh "$CARGO_TARGET_DIR" "$repo"
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer --emit=llvm-ir"
cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu "$@"
# The thread sanitizer pass leaves fetch_max and fetch_min alone: look up their memory ordering in the IR
# (numbers of __ATOMIC_*) and store it for the runtime.
out="$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release"
ords=$(find "$out" -name '*.ll' -print0 | xargs -0 grep -hoE 'atomicrmw u?(max|min) ptr [^,]+, i64 [^ ]+ [a-z_]+' 2>/dev/null | awk '{print $NF}' | sort -u || true)
mo=-1
case " $(echo $ords) " in
  "  ") mo=-1 ;;
  *seq_cst*) mo=5 ;;
  *acq_rel*) mo=4 ;;
  *acquire*release*) mo=4 ;;
  *release*) mo=3 ;;
  *acquire*) mo=2 ;;
  *monotonic*) mo=0 ;;
esac
echo $mo > "$out/native_mo"
