#!/bin/bash
# Plays script.txt against the executive built from /repo and compares what it does with expected.txt.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
B=/repo/_build/cpp; S=/repo/src
L=""; for d in exec xml-parser intfc expr value utils; do L="$L -L$B/src/$d -Wl,-rpath,$B/src/$d"; done
g++ -std=gnu++14 -w -O0 -include cstdint -include cstring -I$B -I$S/exec -I$S/xml-parser -I$S/intfc -I$S/expr -I$S/value -I$S/utils \
  "$D/drv.cc" -o "$T/drv" $L -lPlexilXmlParser -lPlexilExec -lPlexilIntfc -lPlexilExpr -lPlexilValue -lPlexilUtils -lpugixml -lpthread -ldl || exit 2
R=; [ -f "$D/resources.txt" ] && R="$D/resources.txt"
[ -f "$D/env.txt" ] && export $(cat "$D/env.txt")
timeout 60 "$T/drv" "$D/script.txt" $R > "$T/out" 2> "$T/err"
[ -n "$DEMO_OUT" ] && cp "$T/out" "$DEMO_OUT" && cat "$T/err" >&2
diff "$D/expected.txt" "$T/out"
