#!/bin/bash
# fixed.sh PROP COMMIT TEXT: record a repaired defect
python3 - "$@" <<'P'
import json,sys
p,c,w=sys.argv[1:4]
open('/verif/known_findings.jsonl','a').write(json.dumps({"property":p,"id":"fixed-"+c,"status":"fixed","what":f"fixed: property={p} {c} {w}"})+"\n")
P
