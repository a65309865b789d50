#!/bin/bash
# tools/trycheck.sh SEED [check.py args]: runs the property's check against a scratch copy of /repo with the seeded change
S=$1; shift; P=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$S/meta.json'))['property'])"); W=/tmp/sw/try_$S
mkdir -p /tmp/sw; rm -rf "/tmp/sw/try_$S"; mkdir "$W"; cd /repo && git archive HEAD | tar -x -C "$W"; cd "$W" && git init -q . && git apply /verif/seeded/$S/patch.diff || echo NOAPPLY
cd /verif; T0=$(date +%s); O=$(VERIF_REPO=$W python3 check.py $P "$@" 2>&1); R=$?; echo "$S rc=$R $(($(date +%s)-T0))s $(echo "$O" | grep -c VIOLATION) violations"; if [ $R != 1 ]; then echo "$O" | tail -12; fi; rm -rf "/tmp/sw/try_$S"
