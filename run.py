import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from mc import env, runner  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    sys.path.insert(0, os.path.join(ROOT, "checks"))
    if pid in ("C07", "C10", "C11"):  # crash-point injection: needs a preloaded library
        from mc import fault

        fault.ensure()
    env.boot()
    code = runner.main(pid, pid.lower(), sys.argv[2:])
    sys.stdout.flush()
    sys.stderr.flush()
    env._cleanup(env._scratch, env._scratch_pid) if env._scratch else None
    os._exit(code)
