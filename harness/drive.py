"""Entry point of the drivers: `drive.py <driver> <job.json>` (run with the
interpreter that the code under test is installed for)."""
import json
import os
import sys
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
REPO = os.environ.get("MEDIL_REPO", "/repo")
sys.path.insert(0, REPO)


def main():
    import importlib

    job = json.loads(Path(sys.argv[2]).read_text())
    from dlib import Driver

    d = Driver(job)
    try:
        mod = importlib.import_module("drv." + sys.argv[1])
        mod.main(d)
    except Exception as e:
        # an exception of the code under test that no guarded call expects is
        # a violation; any other one is a failure of the machinery
        frames = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(os.path.join(REPO, "medil")) for f in frames):
            d.session([{"e": "driver", "ok": False, "what": f"uncaught {type(e).__name__}: {e}"[:300]}])
        else:
            traceback.print_exc()
            sys.exit(3)
    d.close()


main()
