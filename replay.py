"""Replay one recorded counterexample without the explorer:
    /opt/venv/bin/python /verif/replay.py /verif/replays/C01-0.json
exit 1 when the violation shows again, 0 when it does not."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mc.setup_env  # noqa: E402,F401
from mc import core  # noqa: E402

with open(sys.argv[1]) as fp:
    rec = json.load(fp)
mod = importlib.import_module('checks.%s' % rec['property'].lower())
for sp in mod.spaces(rec['tier']):
    if sp.name == rec['space']:
        out = core.run_one(sp, rec['case'])
        for key, msg in out.viol:
            print(key, msg)
        sys.exit(1 if out.viol else 0)
sys.exit('no such space')
