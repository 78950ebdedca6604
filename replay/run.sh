#!/bin/bash
# replay a counterexample against the real code (real curve, real transcript)
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
cargo build --release --offline -q 2>build.log || cargo build --release --offline -q --no-default-features 2>build.log || { tail -20 build.log >&2; exit 2; }
exec timeout 240 ./target/release/replay "$@"
