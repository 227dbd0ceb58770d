#!/bin/bash
# fresh.sh TARGET_DIR REPO: makes cargo rebuild the crate if its files differ from those of the last build in TARGET_DIR,
# also if their modification times went backwards (an undone change, a restored copy), which cargo does not notice
t=$1; r=$2
mkdir -p "$t"
new=$(cd "$r" && find src Cargo.toml Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$new" != "$(cat "$t/sources.sha256" 2>/dev/null)" ]; then
  find "$t" -type f '(' -path '*/.fingerprint/orx-concurrent-vec-*' -o -path '*/build/orx-concurrent-vec/*' ')' -delete
  echo "$new" > "$t/sources.sha256"
fi
