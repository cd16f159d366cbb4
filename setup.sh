#!/bin/bash
# Builds the MIR dumper and the dependencies of /repo for every feature set the checks analyse.
set -u
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
exec python3 -m engine.dump --setup
