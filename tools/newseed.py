"""tools/newseed.py ID PROPERTY 'needs' 'what it breaks' FILE <<< python-demo ; edits come separately"""
import json, os, sys
sid, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo
export TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1
exec timeout 250 python "$here/demo.py"
''')
open(d + "/demo.py", "w").write("import sys\n\nimport numpy as np\nimport tensorflow as tf\n\nimport tfe_tf_compat  # noqa: F401\nimport tf_encrypted as tfe\n\n" + sys.stdin.read())
