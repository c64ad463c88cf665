"""Shared constants and small helpers of the verification machinery (no import of the code under test)."""
import hashlib
import json
import os
import random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
ORDERS = ["random", "sequential", "simultaneous", "semisimultaneous"]


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def rng_for(*parts):
    """A generator that depends only on its arguments (never on PYTHONHASHSEED)."""
    text = json.dumps(parts, sort_keys=True, default=str)
    return random.Random(int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big"))


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def close(a, b, rel=1e-9, abs_=1e-12):
    return a == b or abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
