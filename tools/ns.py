"""Development helpers: run commands with a scratch copy of /repo mounted over
/repo, in private mount and network namespaces (no check uses this)."""
import os, shutil, subprocess, tempfile


class Tree:
    """A scratch copy of /repo; sh() sees it as /repo."""

    def __init__(self, src="/repo"):
        self.top = tempfile.mkdtemp(prefix="nst-", dir="/var/tmp")
        self.repo = self.top + "/repo"
        subprocess.run(["cp", "-a", src, self.repo], check=True)
        for d in ("evidence", "vp", "verif"):
            os.mkdir(self.top + "/" + d)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        subprocess.run(["chmod", "-R", "u+w", self.top])
        shutil.rmtree(self.top, ignore_errors=True)

    def sh(self, cmd, cwd="/repo", timeout=1000):
        script = ("ip link set lo up; mount --bind %s/repo /repo; mkdir -p /verif/evidence; mount --bind %s/evidence /verif/evidence; "
                  "mount -t tmpfs -o size=6g tmpfs /tmp; cd %s && exec bash -c \"$0\"" % (self.top, self.top, cwd))
        return subprocess.run(["unshare", "-m", "-n", "bash", "-c", script, cmd], stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
