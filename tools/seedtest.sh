#!/bin/bash
# seedtest.sh ID...: tries planted bugs in private copies of /repo and /verif (mount namespace)
one() {
    id=$1; d=/tmp/seedrun/$id; mkdir -p $d
    rm -rf /tmp/seedrun/$id/repo /tmp/seedrun/$id/verif
    cp -a /repo $d/repo; mkdir $d/verif; (cd /verif && tar c --exclude=./evidence --exclude=./.git --exclude=./seeded .) | tar x -C $d/verif
    cp -r /verif/seeded/$id $d/seed
    git -C $d/repo apply $d/seed/patch.diff || { echo "$id: patch does not apply"; return; }
    unshare -m bash -c "
      cd /repo && bash $d/seed/demo.sh >$d/demo0.log 2>&1; echo demo-clean=\$? >$d/result
      mount --bind $d/repo /repo; mount --bind $d/verif /verif; cd /repo
      bash /opt/vp/build.sh >$d/build.log 2>&1 || echo BUILD-FAILED >>$d/result
      bash $d/seed/demo.sh >$d/demo1.log 2>&1; echo demo-bug=\$? >>$d/result
      prop=\$(python3 -c \"import json;print(json.load(open('$d/seed/meta.json'))['property'])\")
      cd /verif; VERIF_SEED=1 VERIF_TIER=quick ./check.sh \$(echo \$prop | tr P p) >$d/check.log 2>&1; echo check-\$prop=\$? \$(grep -c VIOLATION $d/check.log) >>$d/result
      if [ -z \"$NOTEST\" ]; then cd /repo; bash /opt/vp/test.sh $d/out.json >$d/test.log 2>&1
      python3 - <<'X' >>$d/result
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=json.load(open('$d/out.json'))['passed']
print('tests-missing=%d' % len(set(b)-set(p)), sorted(set(b)-set(p))[:3])
X
      fi"
    echo "$id: $(tr '\n' ' ' <$d/result)"
    rm -rf /tmp/seedrun/$id/repo /tmp/seedrun/$id/verif /tmp/seedrun/$id/seed
}
export -f one
mkdir -p /tmp/seedrun
printf '%s\n' "$@" | xargs -P ${PAR:-3} -I{} bash -c 'one {}'
