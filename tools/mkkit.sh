#!/bin/bash
# Packs the stand-ins and helpers the demonstrations in /verif/seeded build with, and lays the
# archive and the common demo.sh beside every demo.rs there.
set -e
v=$(cd "$(dirname "$0")/.." && pwd)
k=/tmp/mkkit.$$
mkdir -p $k/sut $k/demo/src
cp -r $v/sim/simcore $v/sim/shim $v/sim/certs $v/sim/peer $k/
cp -r $v/sim/sut/* $k/sut/
cp $v/sim/Cargo.lock $k/
cp $v/tools/demo-kit/workspace.toml $k/Cargo.toml
cp $v/tools/demo-kit/demo.toml $k/demo/Cargo.toml
cp $v/tools/demo-kit/src/kit.rs $k/demo/src/
python3 - $k <<'P'
import sys,re
p=sys.argv[1]+'/sut/imap-next/Cargo.toml'
s=open(p).read()
s=s.replace('stream = []','stream = ["dep:tokio", "dep:tokio-rustls", "dep:rustls"]')
s=s.replace('features = ["ring", "std", "tls12"] }','features = ["ring", "std", "tls12"], optional = true }')
s=s.replace('shim/tokio" }','shim/tokio", optional = true }').replace('shim/tokio-rustls" }','shim/tokio-rustls", optional = true }')
open(p,'w').write(s)
w=sys.argv[1]+'/Cargo.toml'
open(w,'a').write('\n[profile.dev.package.sut-tag-release]\ndebug-assertions = false\noverflow-checks = false\n')
P
tar -C $k --sort=name --owner=0 --group=0 --mtime=2026-01-01 -cf - . | gzip -n9 > $k.tgz
for d in $v/seeded/*/; do
  [ -f $d/demo.rs ] || continue
  cp $k.tgz $d/kit.tgz
  cp $v/tools/demo-kit/demo.sh $d/demo.sh
done
ls -l $k.tgz
find $k $k.tgz -delete
