#!/bin/bash
# builds the AST dumper from the committed sources, offline
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd dumper && cargo build --release --offline)
python3-vt -c "import z3"
