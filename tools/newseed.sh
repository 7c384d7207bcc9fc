#!/bin/bash
# newseed.sh ID PROP "needs" "breaks"  (demo.py on stdin)
d=/verif/seeded/$1; mkdir -p $d
cat > $d/demo.py
printf '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' > $d/demo.sh
cp /verif/tools/seedlib/mk.py /verif/tools/seedlib/xpress.py $d/
python3 - "$@" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
