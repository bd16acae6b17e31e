#!/bin/bash
# Source coverage of the code under test by the quick checks: tools/cov.sh OUTDIR [CHECK...]
O=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$O/prof"
export PBT_COV=1 PBT_BUILD=$O/build LLVM_PROFILE_FILE=$O/prof/%p-%m.profraw
[ $# = 0 ] && set -- $(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")
for c; do
  python3 "$V/check.py" $c 2>/dev/null | tail -1
  llvm-profdata-18 merge -sparse -o "$O/new.profdata" "$O"/prof/*.profraw $([ -f "$O/all.profdata" ] && echo "$O/all.profdata") && mv "$O/new.profdata" "$O/all.profdata"
  find "$O/prof" -name '*.profraw' -delete
done
bins=$(ls -d "$O"/build/bin/* | sed 's/^/-object /' | tr '\n' ' ')
llvm-cov-18 report $bins -instr-profile="$O/all.profdata" > "$O/report.txt"
llvm-cov-18 show $bins -instr-profile="$O/all.profdata" --show-branches=count > "$O/lines.txt"
