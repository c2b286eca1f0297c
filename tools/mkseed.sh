#!/bin/bash
# mkseed.sh ID PKG : /verif/seeded/ID has edit.py (run in copy), demo_test.go, meta.json
set -e
ID=$1; PKG=$2; S=/verif/seeded/$ID; W=/tmp/seedw
cat > $S/demo.sh <<EOS
#!/bin/bash
# Runs the demonstration test beside this file inside package $PKG, by overlay.
d="\$(cd "\$(dirname "\$0")" && pwd)"
t="\$(mktemp -d)"; trap 'rm -rf "\$t"' EXIT
echo "{\"Replace\":{\"\$PWD/$PKG/zz_demo_test.go\":\"\$d/demo_test.go\"}}" > "\$t/o.json"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go test -overlay "\$t/o.json" -count=1 -timeout 200s -run 'TestSeededDemo' ./$PKG
EOS
chmod +x $S/demo.sh
rm -rf /tmp/seedw; cp -a /repo $W
cd $W
python3 $S/edit.py
gofmt -l pkg
git diff > $S/patch.diff
test -s $S/patch.diff
cd /repo; bash $S/demo.sh > /tmp/demo0.txt 2>&1 && echo "demo ok on base" || { echo "DEMO FAILS ON BASE"; tail -20 /tmp/demo0.txt; exit 1; }
cd $W; if bash $S/demo.sh > /tmp/demo1.txt 2>&1; then echo "DEMO PASSES ON BUG"; exit 1; else echo "demo fails on bug:"; grep -v "^#" /tmp/demo1.txt | head -5; fi
if [ -z "$NOTEST" ]; then go vet ./pkg/... >/dev/null 2>&1; go test ./... 2>&1 | grep -v "no test files" | grep -v "^ok" | head -20; fi
rm -f $S/edit.py.done; mkdir -p /tmp/edits; mv $S/edit.py /tmp/edits/$ID.py
rm -rf /tmp/seedw
