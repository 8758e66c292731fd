"""Source overlays used by the checks: each function returns {file in /repo: replacement file}."""
import json
import os
import subprocess


class NotApplicable(Exception):
    pass


def plain(build, repo, verif):
    return {}


def _instr(build, repo, name, every=()):
    out = os.path.join(build, name)
    os.makedirs(out, exist_ok=True)
    p = subprocess.run([os.path.join(build, "engine"), "instr", repo, out] + list(every), capture_output=True, text=True)
    if p.returncode:
        raise NotApplicable("instrumentation failed: " + p.stderr[-500:])
    return json.loads(p.stdout)


def sync(build, repo, verif):
    """A possible preemption before every statement that synchronizes."""
    return _instr(build, repo, "instr-sync")


def every_std(build, repo, verif):
    """As sync; in std.go and remote.go before every statement."""
    return _instr(build, repo, "instr-std", ["std.go", "remote.go"])


def shim(build, repo, verif):
    """The operating system (files, terminals, signals) replaced by harness/vsys."""
    return _instr(build, repo, "instr-sys", ["shim=" + os.path.join(verif, "harness", "vsys")])


def shim_remote(build, repo, verif):
    """As shim, with a possible preemption before every statement of remote.go."""
    return _instr(build, repo, "instr-sysr", ["shim=" + os.path.join(verif, "harness", "vsys"), "remote.go"])


def shim_sync(build, repo, verif):
    """As shim, with a possible preemption before every statement that synchronizes."""
    return _instr(build, repo, "instr-syss", ["shim=" + os.path.join(verif, "harness", "vsys"), "sync"])


def windows(build, repo, verif):
    """The Windows-only files made part of the package, on a stand-in for the console (harness/vwin)."""
    out = os.path.join(build, "instr-win")
    os.makedirs(out, exist_ok=True)
    p = subprocess.run([os.path.join(build, "engine"), "windows", repo, out, os.path.join(verif, "harness", "vwin", "stub.go.txt")], capture_output=True, text=True)
    if p.returncode:
        raise NotApplicable("instrumentation failed: " + p.stderr[-500:])
    return json.loads(p.stdout)


VARIANTS = {"windows": windows, "plain": plain, "sync": sync, "every_std": every_std, "shim": shim, "shim_remote": shim_remote, "shim_sync": shim_sync}
