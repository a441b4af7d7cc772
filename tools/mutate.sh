#!/bin/bash
# mutate.sh WORKERS CAP [FILE...] -- mutation survey on scratch copies under /tmp/mut
N=$1; CAP=$2; shift 2
for w in $(seq 0 $((N-1))); do
  D=/tmp/mut/w$w; mkdir -p $D/verif
  rsync -a --delete --exclude target --exclude /target /repo/ $D/repo/ 2>/dev/null || { rm -rf $D/repo; mkdir -p $D/repo; (cd /repo; git archive HEAD | tar x -C $D/repo; cp -a .git $D/repo/); }
  for f in $(ls -A /verif | grep -v '^target$\|^seeded$\|^evidence$\|^.git$'); do cp -a /verif/$f $D/verif/; done
  find $D/repo/crates -name "*.rs" -exec touch {} +
  mkdir -p $D/verif/evidence
  [ -d $D/verif/target ] || cp -a /verif/target $D/verif/target
  unshare -m bash -c "mount --bind $D/repo /repo && mount --bind $D/verif /verif && cd /verif && exec python3 /verif/tools/mutate.py $w $N /tmp/mut/out.$w $CAP $*" 2>/dev/null &
done
wait
