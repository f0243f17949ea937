#!/bin/bash
# addreg.sh <id> <name> <replay.json>: keep a shrunk failure as a committed regression case
mkdir -p /verif/regress/$1
python3 - "$@" <<'P'
import json,sys
j=json.load(open(sys.argv[3]))
json.dump({"property":sys.argv[1],"sub":j["sub"],"variant":j.get("variant"),"choices":j["choices"],"what":j.get("message",""),"case":j.get("case","")[:600]},open(f"/verif/regress/{sys.argv[1]}/{sys.argv[2]}.json","w"),indent=1)
P
