#!/bin/bash
# copy.sh DIR: a copy of /repo and of the harness, which run without touching /repo or /verif
set -e
r=$1; mkdir -p "$r/replays" "$r/evidence"
[ -e "$r/repo" ] || cp -a /repo "$r/repo"
mkdir -p "$r/harness"
for f in src model cov vendor Cargo.toml Cargo.lock wrap.sh; do
  rm -rf "$r/harness/$f"; cp -a "/verif/harness/$f" "$r/harness/"
done
cp /verif/KNOWN_FINDINGS.txt "$r/"
sed -i "s#\"/repo\"#\"$r/repo\"#; s/opt-level = 2/opt-level = 1/" "$r/harness/Cargo.toml"
sed -i "s#\"/verif\"#\"$r\"#; s#\"/repo\"#\"$r/repo\"#" "$r/harness/model/src/lib.rs"
