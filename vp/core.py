"""Violation type and per-unit recorder shared by checks, runner and replayer."""

import hashlib
import json


class Violation(Exception):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def digest(case):
    blob = json.dumps(case, sort_keys=True, ensure_ascii=True).encode()
    return hashlib.blake2b(blob, digest_size=8).digest()


class Recorder:
    """Counts what the unit actually did."""

    def __init__(self):
        self.evaluations = 0  # generated cases judged
        self.calls = 0  # library calls compared against the oracle
        self.nontrivial = set()
        self.buckets = {}
        self.samples = []
        self._flag = False

    def begin(self):
        self.evaluations += 1
        self._flag = False

    def mark(self):
        """The current case is non-trivial by the property's rule."""
        self._flag = True

    def cmp(self, n=1):
        self.calls += n

    def bucket(self, name):
        self.buckets[name] = self.buckets.get(name, 0) + 1

    def end(self, case):
        if self._flag:
            d = digest(case)
            if d not in self.nontrivial:
                self.nontrivial.add(d)
                n = len(self.nontrivial)
                if n in (1, 50, 400):
                    self.samples.append(case)

    def merge(self, other):
        self.evaluations += other.evaluations
        self.calls += other.calls
        self.nontrivial |= other.nontrivial
        for k, v in other.buckets.items():
            self.buckets[k] = self.buckets.get(k, 0) + v
        self.samples += other.samples


class Unit:
    """One generated-input campaign: a named judge plus a lazy strategy."""

    def __init__(self, name, judge, strategy, quick, thorough):
        self.name = name  # unique within the property
        self.judge = judge  # key into the property's JUDGES
        self.strategy = strategy  # zero-arg callable -> hypothesis strategy of cases
        self.quick = quick
        self.thorough = thorough

    def examples(self, tier):
        return self.quick if tier == "quick" else self.thorough
