"""Parallel runs of conformance drivers."""
import subprocess, os, concurrent.futures as cf


def run(cmds, timeout=300, workers=None):
    """Runs the commands; returns [(exit status or 'timeout', last output)] in order."""
    def one(cmd):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return p.returncode, p.stdout[-2000:].decode(errors="replace")
        except subprocess.TimeoutExpired:
            return "timeout", ""
    with cf.ThreadPoolExecutor(workers or os.cpu_count()) as ex:
        return list(ex.map(one, cmds))
