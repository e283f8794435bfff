# sourced by demonstrations: builds gosec from the current directory and scans one program; copied beside each demo.
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
go build -o "$T/gosec" ./cmd/gosec || exit 2
mkdir "$T/src"; printf 'module example.com/demo\n\ngo 1.23\n' > "$T/src/go.mod"
# scan RULE FILE [flags]: prints RULE:LINE of every finding
scan() {
  local rule=$1 file=$2; shift 2
  cp "$D/$file" "$T/src/main.go"
  (cd "$T/src" && "$T/gosec" -quiet -fmt=json -include="$rule" "$@" ./... 2>/dev/null) | python3 -c 'import json,sys
s=sys.stdin.read()
d=json.loads(s) if s.strip() else {"Issues":[]}
for i in d["Issues"]: print(i["rule_id"]+":"+i["line"])'
}
