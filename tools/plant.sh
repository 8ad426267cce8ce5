#!/bin/bash
# plant.sh ID PROPERTY PKG "needs" "what it breaks"
# Takes the diff of the scratch copy /tmp/w against HEAD and /tmp/demo_test.go,
# confirms that the patch builds, passes the tests and that the demonstration
# fails with it and passes without it, and stores the result in seeded/ID.
set -u
ID=$1 PROP=$2 PKG=$3 NEEDS=$4 WHAT=$5
D=/verif/seeded/$ID
mkdir -p $D
git -C /tmp/w diff -- . > $D/patch.diff
cp /tmp/demo_test.go $D/demo_test.go
cat > $D/demo.sh <<S
#!/bin/bash
# fails when the planted change is present
D=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh
T=\$(mktemp -d)
trap 'rm -rf "\$T"' EXIT
echo '{"Replace":{"/repo/$PKG/zz_demo_test.go":"'\$D'/demo_test.go"}}' > "\$T/o.json"
cd /repo && go test ${RACE:-} -overlay "\$T/o.json" -vet=off -run 'TestDemo' -count=1 -timeout 120s ./$PKG
S
chmod +x $D/demo.sh
python3 - "$ID" "$PROP" "$NEEDS" "$WHAT" <<'P'
import json,sys
i,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
P
[ -s $D/patch.diff ] || { echo "NO DIFF"; exit 1; }
ok=1
(cd /repo && bash $D/demo.sh >/tmp/plant.log 2>&1) || { echo "demo fails on the unchanged tree"; tail -20 /tmp/plant.log; ok=0; }
git -C /repo apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "does not build"; tail -5 /tmp/plant.log; ok=0; }
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.log 2>&1
python3 - <<'P' || ok=0
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
base=set(b['stable']); got=set(r['passed'])
miss=base-got
print('tests: %d baseline, %d missing'%(len(base),len(miss)), list(miss)[:5])
sys.exit(1 if miss or not base else 0)
P
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/plant.log 2>&1) && { echo "demo does not fail with the patch"; ok=0; }
git -C /repo checkout -- . 
bash /opt/vp/build.sh >/dev/null 2>&1
[ $ok = 1 ] && echo "planted $ID" || { echo "REJECTED $ID"; mv $D /tmp/rejected_$ID; }
