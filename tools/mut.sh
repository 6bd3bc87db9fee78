#!/bin/bash
# mut.sh FILE 'old' 'new' PATTERN : verify contracts matching PATTERN on a copy of /repo with one textual change
rm -rf /tmp/mut/repo; mkdir -p /tmp/mut; cp -a /repo /tmp/mut/repo
python3 - "$1" "$2" "$3" <<'PY'
import sys
p='/tmp/mut/repo/'+sys.argv[1]; s=open(p).read(); assert sys.argv[2] in s, 'pattern'; open(p,'w').write(s.replace(sys.argv[2],sys.argv[3],1))
PY
cd /verif; PYFILECONF_REPO=/tmp/mut/repo python3-vt -m pyvc.verify $4 2>&1 | grep -v ^proved | cut -c1-160 | grep "^failed\|^undec\|^  *failed\|^  *undec" | head -12
