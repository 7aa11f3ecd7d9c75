"""Starts a Python program on real MPI processes."""
import os
import subprocess
import sys
import tempfile

# Open MPI failing to start (before the program under test runs)
STARTUP = ("orte_init", "opal_init", "orte_session_dir", "ompi_mpi_init", "PMIX ERROR", "ORTE_ERROR_LOG")


def run(p, args, timeout, cwd=None, started=lambda: False, always=False, **env):
    """subprocess result; raises subprocess.TimeoutExpired. A failed start of the MPI environment is tried again."""
    for attempt in range(4):
        # a temporary directory per launch: concurrent launches remove each other's session directories otherwise
        with tempfile.TemporaryDirectory(prefix="m-", ignore_cleanup_errors=True) as tmp:
            cmd = [sys.executable, "-P", *args]
            if p > 1 or always:
                cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-n", str(p), *cmd]
            base = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "ORTE_", "OPAL_")) or "ALLOW_RUN_AS_ROOT" in k}
            r = subprocess.run(cmd, env=dict(base, TMPDIR=tmp, **env), cwd=cwd, capture_output=True, text=True, timeout=timeout, check=False)
        err = r.stderr or ""
        if r.returncode == 0 or started() or "Traceback" in err or not any(s in err for s in STARTUP):
            return r
        if attempt == 3:
            raise RuntimeError(f"mpirun does not start: {err[-800:]}")
    return r
