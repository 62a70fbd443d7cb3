""" Nothing to build: check that the interpreter, the repository and the framework import, offline. """
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=f"/repo:{HERE}", MPLBACKEND="agg")
sys.exit(subprocess.call([sys.executable, "-c",
    "import dessia_common.core, dessia_common.workflow.core, vmon.core; print('framework ready', dessia_common.core.__file__)"],
    env=env, cwd=HERE))
