#!/bin/bash
# fzbugs.sh SECS [id...]: runs only the falsifier on each planted bug
secs=$1; shift
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
cd /verif/falsify
ids="$*"; [ -z "$ids" ] && ids=$(ls /verif/seeded)
for i in $ids; do
 t=$(mktemp -d /tmp/fzb.XXXXXX); cp -a /repo $t/repo; git -C $t/repo apply /verif/seeded/$i/patch.diff || continue
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
 sed "s#=> /repo#=> $t/repo#" go.mod > $t/go.mod; cp go.sum $t/go.sum 2>/dev/null
 race=; case $p in C14|C22|C25) race=-race;; esac
 go build $race -modfile $t/go.mod -o $t/fz . && { GORACE=halt_on_error=1 $t/fz $p $secs 1 $t/o.json > $t/out 2>&1; echo "$i rc=$? $(grep -v '^falsify' $t/out | head -3 | cut -c1-200 | tr '\n' ' ')"; }
 find $t -delete
done
