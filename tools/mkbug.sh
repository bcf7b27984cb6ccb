#!/bin/bash
# mkbug.sh <seeded id> <property> <needs> <what>: takes /repo's working diff + demo from stdin ("c" program, or shell if it starts with #!)
D=/verif/seeded/$1; mkdir -p $D; git -C /repo diff > $D/patch.diff; git -C /repo checkout -q -- .
[ -s $D/patch.diff ] || { echo "EMPTY PATCH"; exit 1; }
cat > /tmp/demo_in
if head -c4 /tmp/demo_in | grep -q '#bzz'; then sed -n '2,/^#expect/p' /tmp/demo_in | grep -v '^#expect' > $D/demo.bzz; sed '1,/^#expect/d' /tmp/demo_in > $D/expected
cat > $D/demo.sh <<'S'
#!/bin/bash
# exit 0: the script prints what it should
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
B=/repo/_build/buzz; export LD_LIBRARY_PATH=$B BUZZ_INCLUDE_PATH=/repo/src/include; cp "$D/demo.bzz" "$T/x.bzz"; cd "$T"
timeout 60 $B/bzzparse x.bzz x.basm && timeout 60 $B/bzzasm x.basm x.bo x.bdb && timeout 60 $B/bzzrun x.bo x.bdb 2>&1 | grep -v -e '^\[TODO' -e 'execution terminated correctly' -e '^$' > out; cat out
diff out "$D/expected" > /dev/null
S
elif head -c2 /tmp/demo_in | grep -q '#!'; then cp /tmp/demo_in $D/demo.sh; else cp /tmp/demo_in $D/demo.c
cat > $D/demo.sh <<'S'
#!/bin/bash
# exit 0: behaves as specified
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -g -std=c99 -include stdio.h -include stdlib.h -include string.h -D_GNU_SOURCE -I/repo/src -I/repo/_build "$D/demo.c" -L/repo/_build/buzz -lbuzz -lbuzzdbg -lm -Wl,-rpath,/repo/_build/buzz -o "$T/d" || exit 99
cd "$T" && timeout 100 ./d
S
fi
python3 - "$1" "$2" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
/verif/tools/trybug.sh $1 $5
