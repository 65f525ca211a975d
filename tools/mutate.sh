#!/bin/bash
# mutate.sh K N LIST: worker K of N of the mutation sweep, in /var/tmp/mw/K, on copies of /repo and /verif, where nothing else can be written; result in out.jsonl there
k=$1 n=$2 list=$(realpath "$3") here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
d=/var/tmp/mw/$k; mkdir -p $d/tmp
[ -d $d/repo ] || cp -a $here/../repo $d/repo
[ -d $d/verif ] || { mkdir $d/verif; cp -a $here/{build.sh,check.sh,replay.sh,harness,tools,target,known_findings.json} $d/verif/; mkdir -p $d/verif/{evidence,replays}; }
[ -d $d/vp ] || cp -a /opt/vp $d/vp
cp $list $d/list
exec unshare -Urnmpf --kill-child --mount-proc bash -c "
  ip link set lo up
  for x in repo verif; do mount --bind $d/\$x /\$x; done
  mount --bind $d/vp /opt/vp
  mkdir -p $d/nargun; mount --bind $d/nargun /root/.nargun
  mount --bind $d $d; mount --bind $d/tmp /tmp; mount -t tmpfs tmpfs /dev/shm
  mount -o remount,bind,ro /
  export HOME=/tmp CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
  cd /tmp && exec python3 /verif/tools/mutate.py run $d/list $k $n $d/out.jsonl
"
