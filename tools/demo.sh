#!/bin/bash
# Builds and runs main.rs against /repo's crates: exit 0 if the property holds.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/svm-env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp "$D"/main.rs "$D"/Cargo.toml "$D"/Cargo.lock "$T"/
cd "$T" || exit 3
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/repo/target/demo CARGO_PROFILE_DEV_DEBUG=1
if [ ! -d /repo/target/demo ] && [ -d /repo/target/debug/deps ]; then
  mkdir -p /repo/target/demo/debug
  for d in deps .fingerprint build; do
    mkdir -p /repo/target/demo/debug/$d
    (cd /repo/target/debug/$d && find . -mindepth 1 -maxdepth 1 ! -name 'svm*' ! -name 'libsvm*' -exec cp -al -t /repo/target/demo/debug/$d {} +)
  done
fi
find /repo/target/demo/debug/.fingerprint -maxdepth 1 -name 'svm*' -exec rm -r {} + 2>/dev/null
cargo build --offline --locked >"$T/log" 2>&1 || { tail -40 "$T/log"; exit 3; }
export TMPDIR="$T"
/repo/target/demo/debug/demo
exit $?
