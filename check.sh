#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]     (seed: VERIF_SEED)
# Builds what the check of the property needs from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
mkdir -p evidence replays target
case "$prop" in
  C16|C18) exec python3 types/check.py --prop "$prop" --seed "$seed" --tier "$tier" --evidence "$PWD/evidence/$prop.json" ;;
  C21) exec python3 miri/check.py --seed "$seed" --tier "$tier" --evidence "$PWD/evidence/$prop.json" ;;
esac
(
  flock 9
  bash harness/build.sh > target/build.log 2>&1
) 9> target/build.lock
if [ $? -ne 0 ]; then
  grep -E "^error" -A8 target/build.log | head -60
  echo "ERROR property=$prop the harness does not build, see $PWD/target/build.log"
  exit 2
fi
exec target/x86_64-unknown-linux-gnu/release/harness check --prop "$prop" --seed "$seed" --tier "$tier" --evidence "$PWD/evidence/$prop.json" --replays "$PWD/replays"
