#!/bin/bash
# fixed.sh PROPERTY COMMIT "what failed": records a repaired defect
python3 - "$@" <<'P'
import json,sys
p,c,w=sys.argv[1:4]
open('/verif/known_findings.jsonl','a').write(json.dumps({"property":p,"status":"fixed","commit":c,"match":"","what":f"fixed: property={p} {c} {w}"})+"\n")
P
