"""Runs the executable scenarios of one property on all cores.

A check module (checks/cXX.py) has
    SCENARIOS: {name: function(**args)}    raises on a violation of the property
    cases(tier, seed): iterator of (name, args), args are Python literals
    KNOWN: {finding id: (name, args, description)}   known findings, see KNOWN_FINDINGS
"""
from __future__ import annotations

import ast
import collections
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback
from typing import Any, Dict, List, Optional, Tuple

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_JOBS", "8"))


def load(prop: str) -> Any:
    return importlib.import_module("checks." + prop.lower())


def run_case(mod: Any, name: str, args: dict) -> Optional[str]:
    """None if the property held, otherwise what went wrong"""
    try:
        mod.SCENARIOS[name](**args)
        return None
    except (Exception, KeyboardInterrupt) as e:  # pylint: disable=broad-except
        tb = traceback.format_exc(limit=-6)
        kind = type(e).__name__
        if kind == "Hang":
            return f"the server blocked the event loop\n{tb}"
        return f"{kind}: {e}\n{tb}"


def _worker(prop: str, tier: str, seed: int, idx: int, n: int, deadline: float, conn: Any, mem: int) -> None:
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    counts: Dict[str, int] = collections.Counter()
    failures: List[Tuple[str, dict, str]] = []
    complete = True
    try:
        mod = load(prop)
        for i, (name, args) in enumerate(mod.cases(tier, seed)):
            if i % n != idx:
                continue
            if time.time() > deadline:
                complete = False
                break
            conn.send(("start", name, repr(args)))
            msg = run_case(mod, name, args)
            counts[name] += 1
            if msg:
                failures.append((name, args, msg))
                complete = False
                break
        conn.send(("done", dict(counts), failures, complete))
    except BaseException:  # pylint: disable=broad-except
        conn.send(("crash", traceback.format_exc(), dict(counts)))
    conn.close()
    os._exit(0)


class Result:
    def __init__(self) -> None:
        self.counts: Dict[str, int] = collections.Counter()
        self.failures: List[Tuple[str, dict, str]] = []
        self.complete = True
        self.harness: List[str] = []
        self.wall = 0.0
        self.samples: List[str] = []


def run(prop: str, tier: str, seed: int, budget: float, workers: int = WORKERS) -> Result:
    t0 = time.time()
    deadline = t0 + budget
    mod = load(prop)
    mem = getattr(mod, "MEM", 6 << 30)
    ctx = multiprocessing.get_context("fork")
    res = Result()
    procs = []
    for i in range(workers):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(prop, tier, seed, i, workers, deadline, b, mem))
        p.start()
        b.close()
        procs.append((p, a))
    live = {a: p for p, a in procs}
    last: Dict[Any, Tuple[str, str, float]] = {}
    while live:
        ready = multiprocessing.connection.wait(list(live), timeout=1.0)
        for a in ready:
            try:
                m = a.recv()
            except EOFError:
                p = live.pop(a)
                p.join(5)
                if a in last and p.exitcode != -signal.SIGKILL:
                    name, args, _ = last[a]
                    res.failures.append((name, ast.literal_eval(args),
                                         f"the process running the server died (exit code {p.exitcode})"))
                else:
                    res.harness.append(f"worker died: {p.exitcode}")
                continue
            if m[0] == "start":
                last[a] = (m[1], m[2], time.time())
                if sum(1 for x in res.samples if x.startswith(m[1] + "(")) < 2:
                    res.samples.append(f"{m[1]}({m[2]})")
            else:
                p = live.pop(a)
                p.join(5)
                if m[0] == "done":
                    res.counts.update(m[1])
                    res.failures += m[2]
                    res.complete &= m[3]
                else:
                    res.harness.append(m[1])
                    res.counts.update(m[2])
        # a worker stuck in C code cannot be interrupted by its alarm
        for a, p in list(live.items()):
            if a in last and time.time() - last[a][2] > getattr(mod, "CASE_TIMEOUT", 120):
                p.kill()
                p.join(5)
                live.pop(a)
                name, args, _ = last[a]
                res.failures.append((name, ast.literal_eval(args), "the server blocked the event loop (killed)"))
    for f in list(res.failures):
        if not f[2].startswith(("the server blocked", "the process running", "MemoryError")):
            continue
        if again(mod, f[0], f[1], mem):
            break
        # The machine's fault
        res.failures.remove(f)
        res.harness.append(f"not reproduced: {f[0]}({f[1]}): {f[2]}")
        res.complete = False
    res.wall = time.time() - t0
    return res


def again(mod: Any, name: str, args: dict, mem: int) -> bool:
    """Does the case fail when it is run alone?"""
    pid = os.fork()
    if pid == 0:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        os._exit(7 if run_case(mod, name, args) else 0)
    end = time.time() + getattr(mod, "CASE_TIMEOUT", 120)
    while time.time() < end:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            return os.waitstatus_to_exitcode(status) not in (0, -signal.SIGKILL)
        time.sleep(0.05)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return True


def write_replay(prop: str, name: str, args: dict, msg: str) -> str:
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{name}.txt")
    with open(path, "w") as f:
        f.write(f"property: {prop}\nscenario: {name}\nargs: {args!r}\n"
                f"replay: cd {VERIF} && ./check replay {path}\n\n{msg}\n")
    return path


def replay(path: str) -> int:
    head = {}
    with open(path) as f:
        for line in f:
            k, _, v = line.rstrip("\n").partition(": ")
            head.setdefault(k, v)
    if head.get("scenario") is None:
        print(open(path).read())
        return 1
    mod = load(head["property"])
    msg = run_case(mod, head["scenario"], ast.literal_eval(head["args"]))
    print(msg or "the property holds on this input")
    return 1 if msg else 0
