#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--seed n] [--replay file]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot  # noqa: E402

if __name__ == "__main__":
    boot.reexec()
    from sim import run
    try:
        rc = run.main(sys.argv[1:])
    except SystemExit as e:
        rc = e.code
    except BaseException:
        import traceback
        traceback.print_exc()
        print("HARNESS-ERROR")
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc if isinstance(rc, int) else 3)
