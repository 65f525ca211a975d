#!/bin/bash
# Builds the harness against /repo's current tree. With an argument, only that feature if all together fail to build.
# The program itself is built for the feature that runs it, and without an argument.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=$(cd "$here/../repo" && pwd)
cd $here/harness || exit 3
export RUSTFLAGS="--cfg nargun_verif --cfg tokio_unstable -Awarnings"
export CARGO_NET_OFFLINE=true
mkdir -p $here/target
now=$(cd $repo && cat Cargo.toml Cargo.lock $(find src -type f | sort) | sha256sum; cd $repo && find src -type f | sort | sha256sum)
# mtimes don't tell whether the sources changed: compare what they contain
changed() { [ "$now" != "$(cat $1/nargun.sum 2>/dev/null)" ]; }

if [ -z "$1" ] || [ "$1" = program ]; then
  export CARGO_TARGET_DIR=$here/target/program
  mkdir -p $CARGO_TARGET_DIR
  if changed $CARGO_TARGET_DIR; then
    (cd $repo && cargo +stable clean --offline --locked -p nargun) >/dev/null 2>&1
    if (cd $repo && CARGO_PROFILE_DEV_DEBUG=0 cargo +stable build --offline --locked -q --bin nargun) 2>$here/target/program.log; then
      echo "$now" > $CARGO_TARGET_DIR/nargun.sum
    else
      tail -40 $here/target/program.log >&2
      exit 3
    fi
  fi
fi

export CARGO_TARGET_DIR=$here/target
if changed $here/target; then
  cargo +stable clean --offline -p nargun >/dev/null 2>&1
fi
if cargo +stable build --offline -q 2>$here/target/build.log; then
  echo "$now" > $here/target/nargun.sum
  echo $here/target/debug/harness
  exit 0
fi
[ -z "$1" ] && { tail -40 $here/target/build.log >&2; exit 3; }
# something another property uses has changed its shape; this one may still build
if cargo +stable build --offline -q --no-default-features --features "$1" --target-dir $here/target/alone 2>$here/target/build.log; then
  echo $here/target/alone/debug/harness
  exit 0
fi
tail -40 $here/target/build.log >&2
exit 3
