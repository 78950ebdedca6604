#!/bin/bash
# build the symbolic executor and the native replay driver, offline
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true
(cd symex && cargo build --release --offline -q 2>build.log) || { tail -30 symex/build.log; exit 1; }
(cd replay && cargo build --release --offline -q 2>build.log) || { tail -30 replay/build.log; exit 1; }
command -v z3-new >/dev/null || { echo "z3-new missing"; exit 1; }
