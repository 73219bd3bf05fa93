#!/bin/sh
# Builds the bounded check; every check builds it again if it is missing or stale.
cd "$(dirname "$0")/oracle" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/.build/oracle cargo build --offline --quiet
