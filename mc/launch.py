"""Start one check in a closed environment.

Builds the virtual clock, lays out a throw-away working directory (every entry of /repo is a
symbolic link except data/, which is copied because the code writes below it), and runs the check
in it.  The exit status is 0 (held on everything explored) or 1 with a VIOLATION line.
"""

import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
EPOCH = 1772020800  # 2026-02-25 12:00:00 UTC, the date of the pinned commit
LIMIT = {"quick": 600, "thorough": 7200}


def main():
    prop = sys.argv[1]
    rest = sys.argv[2:]
    tier = "quick"
    for word in ("quick", "thorough"):
        if word in rest:
            tier = word
            rest.remove(word)
    scratch = tempfile.mkdtemp(prefix="mc-" + prop + "-")
    code = 1
    try:
        work = os.path.join(scratch, "w")
        os.mkdir(work)
        for name in os.listdir(REPO):
            if name in (".git", "data"):
                continue
            os.symlink(os.path.join(REPO, name), os.path.join(work, name))
        shutil.copytree(os.path.join(REPO, "data"), os.path.join(work, "data"), symlinks=True)
        clock = os.path.join(scratch, "clock.so")
        subprocess.run(
            ["gcc", "-O1", "-shared", "-fPIC", "-o", clock, os.path.join(HERE, "mc", "clock.c"), "-ldl"], check=True
        )
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "HOME": scratch,
            "TMPDIR": scratch,
            "LANG": "C.UTF-8",
            "LC_ALL": "C.UTF-8",
            "TZ": "UTC",
            "PYTHONPATH": REPO + ":" + HERE,
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONHASHSEED": "0",
            "LD_PRELOAD": clock,
            "MC_NOW": str(EPOCH),
            "MC_CLOCK": clock,
            "MC_SCRATCH": scratch,
            "MC_HOME": HERE,
            "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
            "OPENBLAS_NUM_THREADS": "1",
            "OMP_NUM_THREADS": "1",
        }
        for key in ("MC_JOBS", "MC_BUDGET", "MC_VERBOSE", "MC_NO_KNOWN"):
            if key in os.environ:
                env[key] = os.environ[key]
        proc = subprocess.Popen(
            ["/opt/venv/bin/python", "-m", "mc.main", prop, tier] + rest, cwd=work, env=env, start_new_session=True
        )
        try:
            code = proc.wait(timeout=LIMIT[tier])
        except subprocess.TimeoutExpired:
            code = 97
        finally:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        if code not in (0, 1):
            # The code under test hung or took the process down: that is never correct behaviour.
            path = os.path.join(HERE, "evidence", "replay", prop + "-died.txt")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="utf-8") as f:
                f.write("check process ended with %s at %s\n" % (code, time.ctime()))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  the run did not end normally (status %s: hang or crash of the driven code)" % code)
            code = 1
    finally:
        for _ in range(5):
            shutil.rmtree(scratch, ignore_errors=True)
            if not os.path.exists(scratch):
                break
            time.sleep(0.2)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
