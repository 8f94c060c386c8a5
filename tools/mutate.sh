#!/bin/bash
# tools/mutate.sh TAG SEED COUNT [files...]: mutation testing on copies, in a private mount namespace
tag=$1; shift
d=/tmp/mut/$tag; mkdir -p $d
cp -a /repo $d/repo; cp -a /verif $d/verif; cp -a /opt/vp $d/vp
seed=$1; n=$2; shift 2
export d
exec unshare -m bash -c 'mkdir -p $d/tmp; mount --bind $d/repo /repo; mount --bind $d/verif /verif; mount --bind $d/vp /opt/vp;
 cd /verif; exec python3 tools/mutate.py "$@"' x $seed $n $d.log "$@"
