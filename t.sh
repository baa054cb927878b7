#!/bin/bash
# dev helper: t.sh c02 -> build and run native + bits16 verbosely
cd /verif/mc
export RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
F=$2
for c in native bits16; do
  if [ $c = bits16 ]; then export RUSTFLAGS='--cfg force_bits="16"' CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true; else export CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false; fi
  cargo build --release --bin $1 --target-dir /verif/.build/$c ${F:+--features $F} 2>&1 | grep -E "^error|^warning: unused" -A9 | head -60
  MC_VERBOSE=1 /verif/.build/$c/release/$1 --threads 8 --out /tmp/w/$1.$c.json 2>&1 | tee /tmp/w/log | grep states | sed -E 's/^([a-z0-9-]*[a-z])[-0-9]* +([0-9]+) states +([0-9]+) ops ([0-9.]+)s/\1 \2 \3 \4/' | awk -v c=$c '{s[$1]+=$2;o[$1]+=$3;t[$1]+=$4;n[$1]++} END{for(k in s){printf "%s %-24s blocks %d states %d ops %d cpu %.1fs\n",c,k,n[k],s[k],o[k],t[k]; T+=t[k]}; print c, "cpu", T}'
  python3 -c "
import json;d=json.load(open('/tmp/w/$1.$c.json'))
print(d['states'],d['ops'],d['distinct'],d['wall'],'viol',len(d['violations']));[print(v['block'],v['msg'][-600:]) for v in d['violations'][:6]]"
done
