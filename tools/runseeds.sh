#!/bin/bash
# runseeds.sh [id...]: runs the checks against planted bugs in scratch copies; prints which checks report.
cd "$(dirname "$0")/.." || exit 1
. /opt/vp/env.sh
(cd lint && go build -o /tmp/lint.seeds .) || exit 1
IDS=$(python3 -c "import json;print(','.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")
one() {
  s=$1; p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  d=$(mktemp -d /tmp/rsXXXXXX)
  cp -a /repo "$d/repo"; git -C "$d/repo" apply "$PWD/seeded/$s/patch.diff" || echo "$s APPLY FAILED"
  r=$(/tmp/lint.seeds -verif "$d" -dir "$d/repo" -check "$2" 2>&1 | grep -o '^VIOLATION property=[A-Z0-9]*' | cut -d= -f2 | tr '\n' ' ')
  case " $r" in *" $p "*) echo "$s $p CAUGHT by: $r";; *) echo "$s $p MISSED (others: $r)";; esac
  rm -rf "$d"
}
export -f one
if [ $# -eq 0 ]; then set -- $(ls seeded); fi
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c "one {} $IDS" | sort
