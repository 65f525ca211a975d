#!/bin/bash
# check.sh <property> [quick|thorough]: build against /repo's tree as it is now, then decide the property.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
# the feature whose module holds the property
feature=$(grep -h "\"$id\"" $here/harness/src/props/mod.rs | grep -o '"[a-z]*"' | head -1 | tr -d '"')
[ -z "$feature" ] && { echo "unknown property $id" >&2; exit 3; }
bin=$($here/build.sh "$feature") || exit 3
export VERIF_PROGRAM=$here/target/program/debug/nargun
exec "$bin" "$id"
