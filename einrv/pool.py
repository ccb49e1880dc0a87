"""Workers that execute jobs (slices of workloads) on the real code, and survive whatever it does."""
from __future__ import annotations

import json
import os
import selectors
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EIN_REPO", "/repo")


def environment():
    env = dict(os.environ)
    env.update(
        PYTHONPATH=f"{REPO}:{VERIF}", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu",
        CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 --xla_backend_optimization_level=0",
        TF_CPP_MIN_LOG_LEVEL="3", PYTHONUNBUFFERED="1",
    )
    return env


class Worker:
    def __init__(self, env):
        self.p = subprocess.Popen(
            [sys.executable, "-X", "faulthandler", "-m", "einrv.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE if os.environ.get("EINRV_QUIET") else None, env=env, cwd=VERIF,
        )
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""
        self.job = None
        self.started = 0.0
        self.done = 0

    def send(self, job):
        self.job, self.started = job, time.time()
        self.p.stdin.write(json.dumps(job).encode() + b"\n")
        self.p.stdin.flush()

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass


def run_jobs(jobs, workers, deadline, job_timeout, on_result, on_lost, max_done=60):
    """run all jobs; on_lost(job, why) is called for one whose worker died or hung twice"""
    env = environment()
    queue = list(reversed(jobs))
    sel = selectors.DefaultSelector()
    live = {}

    def spawn():
        w = Worker(env)
        live[w.p.stdout.fileno()] = w
        sel.register(w.p.stdout.fileno(), selectors.EVENT_READ)
        return w

    def drop(w):
        fd = w.p.stdout.fileno()
        sel.unregister(fd)
        del live[fd]
        w.kill()

    def feed(w):
        if queue and time.time() < deadline:
            try:
                w.send(queue.pop())
                return
            except BrokenPipeError:
                queue.append(w.job)
        drop(w)

    def lost(w, why):
        job = w.job
        drop(w)
        if job.get("retry"):
            on_lost(job, why)
        else:
            queue.append({**job, "retry": True})

    for _ in range(min(workers, len(jobs))):
        feed(spawn())
    stopped = False
    while live:
        for key, _ in sel.select(timeout=1.0):
            w = live.get(key.fd)
            if w is None:
                continue
            try:
                data = os.read(key.fd, 1 << 20)
            except BlockingIOError:
                continue
            if not data:
                code = w.p.wait()
                lost(w, f"worker ended with status {code}")
                continue
            w.buf += data
            while b"\n" in w.buf:
                line, w.buf = w.buf.split(b"\n", 1)
                if line.startswith(b"@R "):
                    if on_result(w.job, json.loads(line[3:])):
                        stopped = True
                    w.done += 1
                    if stopped:
                        queue.clear()
                    if w.done >= max_done and queue:
                        drop(w)
                    else:
                        feed(w)
        now = time.time()
        for w in list(live.values()):
            if now - w.started > job_timeout:
                lost(w, f"no answer within {job_timeout} s")
        while queue and len(live) < workers and now < deadline:
            feed(spawn())
    return len(queue)
