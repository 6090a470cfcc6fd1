"""setup_cmd: checks that the framework itself is usable offline, and cross-checks the verifier's
numpy contracts (pvc/snp.py, pvc/sarr.py) against real numpy on literal arrays."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", "source /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    env.update({k.decode(): v.decode() for k, v in (kv.split(b"=", 1) for kv in out.split(b"\0") if b"=" in kv)})
    env["PYTHONPATH"] = "/repo/src:" + HERE
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pvc.xcheck"], cwd=HERE, env=env)
    return r.returncode


if __name__ == "__main__":
    sys.exit(main())
