"""Case list and texts without keeping TensorFlow in the parent process."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_texts = None


def texts():
    global _texts
    if _texts is None:
        with open(os.path.join(ROOT, "bounds.json")) as f:
            _texts = json.load(f)
    return _texts


def bounds(prop):
    return texts().get(prop, {}).get("bounds", "")


def assumptions(prop):
    t = texts()
    return t.get("*", {}).get("assumptions", []) + t.get(prop, {}).get("assumptions", [])


def cases(prop, tier):
    code = ("import json;from tfv import reg;"
            "cs=reg.load(%r);print('\\n@@'+json.dumps([{'key':c.key,'tier':c.tier,'cost':c.cost,'limit':c.opts.get('limit')} for c in cs]))" % prop)
    p = subprocess.run([sys.executable, "-c", code], cwd=ROOT, capture_output=True, text=True)
    for ln in p.stdout.splitlines():
        if ln.startswith("@@"):
            cs = json.loads(ln[2:])
            return [c for c in cs if tier == "thorough" or c["tier"] == "quick"]
    sys.stderr.write(p.stderr[-3000:])
    return []
