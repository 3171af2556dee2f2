#!/bin/bash
# seed.sh ID PROP PKG "needs" "what it breaks" : takes the diff of the scratch copy /tmp/seedwt (git worktree copy of /repo)
# and the demonstration /tmp/demo_test.go (package PKG, test TestDemo), validates both, and stores them under seeded/ID.
set -u
id=$1 prop=$2 pkg=$3
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
d=/verif/seeded/$id; mkdir -p $d
trap "git -C /tmp/seedwt checkout -q -- ." EXIT
git -C /tmp/seedwt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty diff"; exit 1; }
[ -f /tmp/demo_test.go ] && mv /tmp/demo_test.go $d/demo_test.go
cat > $d/demo.sh <<D
#!/bin/bash
# Runs the demonstration test in package $pkg of the repository in the current directory.
export HOME=\${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
here=\$(cd "\$(dirname "\$0")" && pwd)
tmp=\$(mktemp -d) || exit 3
trap 'rm -rf "\$tmp"' EXIT
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$here" > "\$tmp/overlay.json"
go test -count=1 -vet=off -timeout 120s -overlay "\$tmp/overlay.json" -run '^TestDemo\$' ./$pkg
D
chmod +x $d/demo.sh
python3 - "$d" "$prop" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
(cd /repo && bash $d/demo.sh >/tmp/demo.log 2>&1) || { echo "FAIL: demo fails on clean tree"; tail -20 /tmp/demo.log; exit 1; }
git -C /repo apply $d/patch.diff || exit 1
trap "git -C /repo checkout -- .; git -C /tmp/seedwt checkout -q -- ." EXIT
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "FAIL: build"; tail /tmp/b.log; exit 1; }
(cd /repo && bash $d/demo.sh >/tmp/demo.log 2>&1) && { echo "FAIL: demo passes with patch"; exit 1; }
grep -E "demo_test|---|panic" /tmp/demo.log | head -3
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 - <<'P' || { echo "FAIL: stable tests"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(d):
    for k in ('passed','stable','tests','pass'):
        if k in d: return set(d[k])
miss=names(b)-names(o)
if miss: print('missing',miss)
sys.exit(1 if miss else 0)
P
cd /verif && timeout 880 ./check $prop 2>&1 | grep -E "^(VIOLATION|OK|KNOWN)|replay" | head -3
git -C /tmp/seedwt checkout -q -- .
