#!/bin/bash
# check.sh <property> <tier>: rebuild the symbolic executor against /repo's working tree and decide the property
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/symex/target"
unset RUSTFLAGS
# if the building blocks' signatures have changed, only their own property (C19) is left without an answer
if ! (cd symex && { cargo build --release --offline -q 2>build.log || { [ "$1" != C19 ] && cargo build --release --offline -q --no-default-features 2>build.log; }; }); then
  tail -30 symex/build.log >&2
  echo "ERROR: /repo (or the machinery) does not build"
  exit 2
fi
unset CARGO_TARGET_DIR
exec ./symex/target/release/symex check "$1" "${2:-quick}"
