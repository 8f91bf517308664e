#!/bin/bash
# usage: seed.sh ID PROPERTY PYEDIT  -- PYEDIT: python file with list EDITS=[(file, old, new)], NEEDS, BREAKS; DEMO go test beside (ID dir must contain demo_test.go [pkgdir in demo.pkg])
# makes a scratch copy of /repo, applies the edit, confirms build, tests, demo; writes /verif/seeded/ID
ID=$1; PROP=$2; ED=$3
D=/verif/seeded/$ID; W=/tmp/seedwork.$ID
. /verif/env.sh
[ -d $W ] && find $W -delete
cp -a /repo $W
python3 - "$ED" "$W" "$D" "$PROP" <<'P' || exit 1
import sys, json, os
ed, w, d, prop = sys.argv[1:]
ns = {}; exec(open(ed).read(), ns)
for f, o, n in ns['EDITS']:
    p = w+'/'+f; s = open(p).read()
    assert s.count(o) == 1, (f, o, s.count(o))
    open(p, 'w').write(s.replace(o, n))
os.makedirs(d, exist_ok=True)
if not os.path.exists(d+'/demo.sh'):
    pkg = ns.get('PKG', './processors')
    tgt = 'zz_seed_demo_test.go'
    sub = pkg.strip('./')
    dst = (sub+'/' if sub else '')+tgt
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# runs the in-package demonstration beside this file against the tree in the working directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d); trap 'find "$T" -delete' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cp "$D/demo_test.go.txt" "$T/demo_test.go"
echo "{{\\"Replace\\":{{\\"$R/{dst}\\":\\"$T/demo_test.go\\"}}}}" > "$T/o.json"
go test -overlay "$T/o.json" -run '^TestSeedDemo' -vet=off -count=1 -timeout 120s {pkg}
''')
json.dump({"property": prop, "needs": ns['NEEDS'], "what_it_breaks": ns['BREAKS']}, open(d+'/meta.json','w'), indent=1)
if 'DEMO' in ns: open(d+'/demo_test.go.txt','w').write(ns['DEMO'])
P
(cd $W && git diff > $D/patch.diff)
echo "--- unchanged:"; (cd /repo && bash $D/demo.sh > /tmp/seed.out 2>&1; echo "rc $?"; tail -3 /tmp/seed.out)
(cd $W && go build ./... && go test -vet=off -count=1 ./... 2>&1 | tail -4)
echo "--- patched:"; (cd $W && bash $D/demo.sh > /tmp/seed.out 2>&1; echo "rc $?"; grep -v "^\(Removing\|\.\)" /tmp/seed.out | tail -5)
git -C /repo status --short
find $W -delete
