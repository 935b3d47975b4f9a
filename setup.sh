#!/bin/bash
# builds the compiler driver and the dependencies' metadata, offline
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
(cd driver && cargo +nightly build --offline -q)
./extract.sh ${VERIF_REPO:-/repo} "$PWD/.build/setup_facts.json"
rm -f "$PWD/.build/setup_facts.json"
