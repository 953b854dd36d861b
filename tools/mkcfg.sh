#!/bin/bash
# writes spec/X.cfg from the clauses of spec/X.tla
cd "$(dirname "$0")/../spec" || exit 2
for m in "$@"; do
  (echo "INIT Init"; echo "NEXT Next"; echo "INVARIANTS"; grep -oP '^\w+(?= == bad # )' "$m.tla" | sed 's/^/  /') > "$m.cfg"
done
