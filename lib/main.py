import importlib.util
import os
import shutil
import sys
import tempfile
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf  # noqa: E402


def run():
    pid = sys.argv[1]
    scratch = None
    try:
        args = [os.path.abspath(a) if os.path.exists(a) else a for a in sys.argv[2:]]
        vf.bootstrap()
        spec = importlib.util.spec_from_file_location(
            "check_" + pid, os.path.join(vf.ROOT, "checks", pid.lower() + ".py"))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        # whatever the code under test writes by relative name ends up in here
        scratch = tempfile.mkdtemp(prefix="vf-")
        os.chdir(scratch)
        rc = vf.main(pid, mod, args)
    except BaseException:
        traceback.print_exc()
        print(f"ERROR: the check of {pid} could not decide (harness error, not a violation)")
        rc = vf.EXIT_ERROR
    if scratch:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


run()
