"""stand-ins for the outside world: subprocesses"""
import contextlib
import io
import os
import shlex
import subprocess
import sys


@contextlib.contextmanager
def imported_by_name(replacements):
    """{original: stand-in} also for the modules of the repository that hold the original under a name of their own"""
    changed = []
    for name, module in list(sys.modules.items()):
        if module is None or not (name == "pibronic" or name.startswith("pibronic.")):
            continue
        for key, value in list(vars(module).items()):
            for original, substitute in replacements:
                if value is original:
                    changed.append((module, key, original))
                    setattr(module, key, substitute)
    try:
        yield
    finally:
        for module, key, original in changed:
            setattr(module, key, original)


class Shell:
    """replaces every way to start a process; `answer(argv, text)` returns (stdout, stderr, returncode)"""

    def __init__(self, answer):
        self.answer = answer
        self.calls = []      # (argv, command as text)

    def _ask(self, cmd):
        if isinstance(cmd, (str, bytes)):
            text = cmd.decode() if isinstance(cmd, bytes) else cmd
            argv = shlex.split(text)
        else:
            argv = [str(a) for a in cmd]
            text = shlex.join(argv)
        self.calls.append((argv, text))
        out, err, code = self.answer(argv, text)
        return out, err, code

    @staticmethod
    def _texty(kwargs):
        return bool(kwargs.get("text") or kwargs.get("universal_newlines") or kwargs.get("encoding"))

    def run(self, cmd, *args, **kwargs):
        out, err, code = self._ask(cmd)
        if not self._texty(kwargs):
            out, err = out.encode(), err.encode()
        if kwargs.get("check") and code:
            raise subprocess.CalledProcessError(code, cmd, out, err)
        return subprocess.CompletedProcess(cmd, code, out, err)

    def popen(self, cmd, *args, **kwargs):
        out, err, code = self._ask(cmd)
        text = self._texty(kwargs)
        if not text:
            out, err = out.encode(), err.encode()
        shell = self

        class Process:
            returncode = code
            pid = 1
            stdout = io.StringIO(out) if text else io.BytesIO(out)
            stderr = io.StringIO(err) if text else io.BytesIO(err)
            args_ = cmd

            def communicate(self, input=None, timeout=None):
                return out, err

            def wait(self, timeout=None):
                return code

            def poll(self):
                return code

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False
        return Process()

    @contextlib.contextmanager
    def installed(self):
        names = {
            "run": self.run, "Popen": self.popen,
            "call": lambda cmd, *a, **k: self.run(cmd, **k).returncode,
            "check_call": lambda cmd, *a, **k: self.run(cmd, **{**k, "check": True}).returncode,
            "check_output": lambda cmd, *a, **k: self.run(cmd, **{**k, "check": True}).stdout,
            "getoutput": lambda cmd, *a, **k: self.run(cmd, text=True).stdout,
            "getstatusoutput": lambda cmd, *a, **k: (lambda r: (r.returncode, r.stdout))(self.run(cmd, text=True)),
        }
        saved = {n: getattr(subprocess, n) for n in names}
        system = os.system
        try:
            for n, f in names.items():
                setattr(subprocess, n, f)
            os.system = lambda cmd: self.run(cmd).returncode
            with imported_by_name([(saved[n], f) for n, f in names.items()] + [(system, os.system)]):
                yield self
        finally:
            for n, f in saved.items():
                setattr(subprocess, n, f)
            os.system = system


def slurm(cluster="nlogn", partitions=("serial", "highmem"), submit=None):
    """a minimal cluster: scontrol show config, sinfo, sbatch"""
    def answer(argv, text):
        tool = os.path.basename(argv[0])
        if tool == "scontrol" and argv[1:3] == ["show", "config"]:
            return (f"Configuration data as of 2018-10-01T10:00:00\nAccountingStorageHost   = localhost\n"
                    f"ClusterName             = {cluster}\nCompleteWait            = 0 sec\n", "", 0)
        if tool == "sinfo":
            return "PARTITION           \n" + "".join(f"{p:<20}\n" for p in partitions), "", 0
        if tool == "sbatch":
            return submit(argv, text)
        return "", f"{tool}: command not found", 127
    return answer
