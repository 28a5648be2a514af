import hashlib
import json
import math
import random


def derive(*parts):
    """A stable 63-bit integer from the parts (never Python's randomised hash)."""
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big') >> 1


class Rng(random.Random):
    """The one source of choices of a plan. Weighted helpers only; never used while executing a plan."""

    def chance(self, p):
        return self.random() < p

    def pick(self, *weighted):
        """pick((w, value), ...)"""
        total = sum(w for w, _ in weighted)
        x = self.random() * total
        for w, v in weighted:
            x -= w
            if x < 0:
                return v
        return weighted[-1][1]


def canon(o):
    """JSON-able, exact and order-independent-of-hash form of results (floats by hex)."""
    import numpy as np
    if isinstance(o, dict):
        return {str(k): canon(v) for k, v in sorted(o.items(), key=lambda kv: str(kv[0]))}
    if isinstance(o, (list, tuple)):
        return [canon(v) for v in o]
    if isinstance(o, np.ndarray):
        return [canon(v) for v in o.tolist()]
    if isinstance(o, (np.floating, float)):
        f = float(o)
        if math.isnan(f):
            return 'nan'
        return (f + 0.0).hex()  # -0.0 and 0.0 are the same observation
    if isinstance(o, (np.bool_, bool)):
        return bool(o)
    if isinstance(o, (np.integer, int)):
        return (float(o) + 0.0).hex()
    if o is None or isinstance(o, str):
        return o
    return repr(type(o))


def digest(o):
    return hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()[:16]


def close(a, b, scale=1.0, tol=1e-9):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(1.0, abs(scale), abs(a), abs(b))


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Divergence(Exception):
    """Harness-level: the plan cannot be carried out (never reported as a violation)."""
