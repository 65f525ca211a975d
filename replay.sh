#!/bin/bash
# replay.sh <file>: run one recorded case; exit 1 when the property fails on it.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=$(grep -o '"property": *"[A-Z0-9]*"' "$1" | head -1 | grep -o '[A-Z][0-9]*')
feature=$(grep -h "\"$id\"" $here/harness/src/props/mod.rs | grep -o '"[a-z]*"' | head -1 | tr -d '"')
bin=$($here/build.sh "$feature") || exit 3
export VERIF_PROGRAM=$here/target/program/debug/nargun
exec "$bin" replay "$1"
