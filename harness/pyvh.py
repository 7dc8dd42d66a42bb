"""Event log for harnesses written in Python; same format as vh.hpp."""
import atexit
import hashlib
import json
import os
import random
import sys


class Out:
    def __init__(self):
        self.f = open(os.environ.get("VERIF_EVENTS", "/dev/stdout"), "a")
        self.n = 0
        self.seen = set()
        self.counters = {}
        self.keys = {}

    def _w(self, d):
        self.f.write(json.dumps(d) + "\n")
        self.f.flush()

    def violation(self, key, msg, case):
        self.keys[key] = self.keys.get(key, 0) + 1
        if self.keys[key] <= 5:
            self._w({"ev": "violation", "key": key, "msg": str(msg)[:3000], "case": str(case)[:4000]})

    def eval(self, case):
        self.n += 1
        h = hashlib.sha1(str(case).encode()).hexdigest()
        if h not in self.seen:
            self.seen.add(h)
            if len(self.seen) <= 3:
                self._w({"ev": "sample", "case": str(case)[:600]})

    def case(self, c):
        self._w({"ev": "case", "case": str(c)[:3000]})

    def count(self, name, v=1):
        self.counters[name] = self.counters.get(name, 0) + v

    def error(self, msg):
        self._w({"ev": "error", "msg": str(msg)[:3000]})

    def done(self):
        for k, v in self.counters.items():
            self._w({"ev": "count", "name": k, "value": v})
        self._w({"ev": "done", "evaluations": self.n, "distinct": len(self.seen)})


out = Out()
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")


def rng(salt):
    return random.Random(f"{SEED}-{salt}")


def n(quick, thorough):
    return thorough if THOROUGH else quick
