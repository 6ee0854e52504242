"""Process bootstrap: imports TensorFlow + tf_encrypted from /repo and the z3 bindings."""
import importlib.util
import os
import sys
import warnings

warnings.filterwarnings("ignore")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
REPO = os.environ.get("TFV_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if "/opt/vp/compat" not in sys.path:
    sys.path.insert(0, "/opt/vp/compat")

_PYVT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _load(name):
    spec = importlib.util.spec_from_file_location(
        name,
        "%s/%s/__init__.py" % (_PYVT, name),
        submodule_search_locations=["%s/%s" % (_PYVT, name)],
    )
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


_NOTF = os.environ.get("TFV_NOTF") == "1"
if not _NOTF:
    import tensorflow as tf  # noqa: E402

    tf.get_logger().setLevel("ERROR")
    import logging

    logging.getLogger("tf_encrypted").setLevel(logging.CRITICAL)
    import tfe_tf_compat  # noqa: F401,E402
    import tf_encrypted as tfe  # noqa: E402
else:
    tf = None
    tfe = None

z3 = _load("z3")
z3.set_param("verbose", 0)
