"""What a workload reports: events observed, distinct cases, violations."""
from __future__ import annotations

import collections
import contextlib
import hashlib
import random


class Skip(Exception):
    """this case cannot be observed here (recorded, not a verdict)"""


class Ctx:
    def __init__(self, job):
        self.job = job
        self.index = job["lo"]
        self.counts = collections.Counter()
        self.keys = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.phase = "prepare"
        self.thorough = job.get("tier") == "thorough"

    @property
    def seed(self):
        return f"{self.job['seed']}/{self.job['workload']}/{self.index}"

    def rng(self, tag=""):
        return random.Random(f"{self.seed}/{tag}")

    @contextlib.contextmanager
    def observing(self):
        """the real code is running: not finishing is its failure, not the harness's"""
        self.phase = "observe"
        yield
        self.phase = "prepare"

    def event(self, name, n=1):
        self.counts[name] += n

    def seen(self, *key):
        """a distinct, non-trivial case"""
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(obj)

    def violation(self, detail, info):
        self.violations.append(dict(
            check=self.job["check"], workload=self.job["workload"], index=self.index, seed=self.job["seed"],
            tier=self.job.get("tier", "quick"), detail=detail, info=info,
        ))

    def broken(self, tb):
        """the harness itself failed on this case"""
        self.counts["harness_error"] += 1
        if len(self.errors) < 2:
            self.errors.append(f"{self.seed}: {tb}")

    def result(self):
        return dict(counts=dict(self.counts), keys=sorted(self.keys), samples=self.samples,
                    violations=self.violations, errors=self.errors)
