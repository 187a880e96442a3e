"""A small pool of forked workers: a worker that dies or overruns costs its job, never the run."""
import multiprocessing
import os
import signal
import time
from multiprocessing.connection import wait


def _serve(conn, fn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        while True:
            job = conn.recv()
            if job is None:
                break
            conn.send(fn(job))
    except (EOFError, BrokenPipeError, OSError):
        pass
    finally:
        os._exit(0)


class Worker:
    def __init__(self, ctx, fn):
        self.conn, child = ctx.Pipe()
        self.proc = ctx.Process(target=_serve, args=(child, fn), daemon=True)
        self.proc.start()
        child.close()
        self.job = None
        self.served = 0
        self.until = None

    def give(self, job, limit):
        self.job, self.until = job, time.time() + limit
        self.served += 1
        self.conn.send(job)

    def kill(self):
        try:
            os.kill(self.proc.pid, signal.SIGKILL)
        except (OSError, TypeError):
            pass
        try:
            self.conn.close()
        except OSError:
            pass


def run(jobs, fn, procs, deadline, hard, lost, maxtasks=40):
    """yield fn(job) as the jobs finish, until the deadline; `hard(job)`: seconds after which the worker is
    killed; `lost(job, why)`: the result of a job whose worker died or was killed"""
    ctx = multiprocessing.get_context('fork')
    todo = list(reversed(jobs))
    pool = []
    try:
        while True:
            for w in [w for w in pool if w.job is None and w.served >= maxtasks]:
                w.kill()
                w.proc.join(1)
                pool.remove(w)
            idle = [w for w in pool if w.job is None]
            while todo and (idle or len(pool) < procs):
                if idle:
                    w = idle.pop()
                else:
                    w = Worker(ctx, fn)
                    pool.append(w)
                job = todo.pop()
                w.give(job, hard(job))
            busy = [w for w in pool if w.job is not None]
            if not busy:
                return
            now = time.time()
            if now >= deadline:
                return
            nxt = min([deadline] + [w.until for w in busy])
            for c in wait([w.conn for w in busy], timeout=max(0.05, min(5.0, nxt - now))):
                w = next(w for w in busy if w.conn is c)
                job = w.job
                try:
                    r = c.recv()
                    w.job = None
                except (EOFError, OSError):
                    r = lost(job, 'the worker ended')
                    w.kill()
                    w.proc.join(1)
                    pool.remove(w)
                yield r
            now = time.time()
            for w in [w for w in pool if w.job is not None and w.until < now]:
                job = w.job
                w.kill()
                w.proc.join(1)
                pool.remove(w)
                yield lost(job, 'killed after its time limit')
    finally:
        for w in pool:
            w.kill()
