#!/bin/bash
cd /verif/fpv && CARGO_TARGET_DIR=/verif/.build/fpv cargo build --offline --release 2>&1 | grep -E "^error" -A9 | head -${1:-40}
