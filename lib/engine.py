"""Run the engine on instances in parallel and parse what it prints."""
import subprocess, os, re, tempfile, concurrent.futures as cf, resource

ANSI = re.compile(r"\x1b\[[0-9;]*m")


def run(cmd, timeout, cwd=None, mem_gb=6):
    def lim():
        if mem_gb: resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd,
                           preexec_fn=lim)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return "timeout", o.decode(errors="replace") if isinstance(o, bytes) else o


def pmap(f, items, workers=None):
    with cf.ThreadPoolExecutor(workers or os.cpu_count()) as ex:
        return list(ex.map(f, items))


def parse_plans(inst, out):
    """All plans between ==> and <==, as records for PlanTrace.tla. Unknown names become -1."""
    t2i = {n: i for i, n in enumerate(inst.names)}
    m2i = {m["name"]: i for i, m in enumerate(inst.methods)}
    plans, cur = [], None
    for line in ANSI.sub("", out).splitlines():
        if line.strip() == "==>":
            cur = dict(acts=[], root=-1, dec=[], bad=0); continue
        if line.strip() == "<==" and cur is not None:
            plans.append(cur); cur = None; continue
        if cur is None or not line.strip(): continue
        try:
            w = line.split()
            if w[0] == "root":
                cur["root"] = int(w[1])
            elif "->" in w:
                k = w.index("->")
                cur["dec"].append([int(w[0]), t2i.get(" ".join(w[1:k]), -1), m2i.get(w[k + 1], -1), [int(x) for x in w[k + 2:]]])
            else:
                cur["acts"].append([int(w[0]), t2i.get(" ".join(w[1:]), -1)])
        except (ValueError, IndexError):
            cur["bad"] = 1
    return plans


def parse_progression(inst, rc, out):
    r = dict(rc=rc, status="none", length=-1, cost=-1, plans=[])
    m = re.search(r"- Status: (.*)", out)
    if m:
        s = m.group(1).strip()
        r["status"] = {"Solved": "solved", "Proven unsolvable": "unsolvable"}.get(s, "timeout" if "imeout" in s else s)
    m = re.search(r"- Found solution of length (\d+)", out)
    if m: r["length"] = int(m.group(1))
    m = re.search(r"- Total costs of actions: (\d+)", out)
    if m: r["cost"] = int(m.group(1))
    r["plans"] = parse_plans(inst, out)
    return r


def run_until(cmd, stop, timeout, mem_gb=6, cwd=None, env=None):
    """Runs cmd until stop(line) says so, it ends or the time is up. Returns (exit code, "stopped" or "timeout"; output)."""
    import select, time, signal
    def lim():
        if mem_gb: resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=lim, cwd=cwd, env=env, start_new_session=True)
    out, rest, end, why = [], b"", time.time() + timeout, None
    try:
        while why is None:
            left = end - time.time()
            if left <= 0: why = "timeout"; break
            if not select.select([p.stdout], [], [], left)[0]: continue
            d = os.read(p.stdout.fileno(), 1 << 16)
            if not d: break
            rest += d
            *ls, rest = rest.split(b"\n")
            for l in ls:
                l = ANSI.sub("", l.decode(errors="replace")); out.append(l)
                if stop(l): why = "stopped"; break
    finally:
        if why:   # with what it started
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
        rc = p.wait(); p.stdout.close()
    if rest: out.append(ANSI.sub("", rest.decode(errors="replace")))
    return why or rc, "\n".join(out)
