#!/bin/bash
# builds the harness and the dependencies of the generated programs
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays target
bash harness/build.sh > target/build.log 2>&1 || { tail -30 target/build.log; exit 1; }
target/x86_64-unknown-linux-gnu/release/harness list
