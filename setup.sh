#!/bin/sh
# builds the weaver and both profiles of the replay engine, offline
set -e
cd "$(dirname "$0")"
(cd weaver && cargo build --offline --release)
(cd harness && cargo build --offline --release && cargo build --offline --profile checked)
