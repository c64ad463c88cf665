"""batch-run.py executed in this process: what reaches its runs and what its graphs show is recorded."""
import contextlib
import inspect
import io
import json
import os
import runpy
import sys
import uuid

import numpy as np

import sut
from common import REPO

Real = sut.sim.Simulation
SIGNATURE = inspect.signature(Real.__init__)


class Recorder(Real):
    """Notes the arguments that it gets; what is simulated is small (unless told otherwise)."""

    def __init__(self, *args, **kw):
        bound = SIGNATURE.bind(self, *args, **kw)
        bound.apply_defaults()
        got = {k: v for k, v in bound.arguments.items() if k != "self"}
        folder = os.environ["VERIF_RECORD"]
        with open(os.path.join(folder, uuid.uuid4().hex), "w") as f:
            json.dump({k: str(v) if k == "parent_dir" else v for k, v in got.items()}, f)
        change = json.loads(os.environ["VERIF_CHANGE"])
        got.update(change)
        super().__init__(**got)


def contents(ax):
    points = [[tuple(float(z) for z in p) for p in c.get_offsets()] for c in ax.collections if type(c).__name__ == "PathCollection"]
    cells = []
    for c in ax.collections:
        if type(c).__name__ == "QuadMesh":
            a = c.get_array()
            n = len(ax.get_yticks()) if a.ndim == 1 else a.shape[0]
            cells.append([[None if x is None or x != x else float(x) for x in row] for row in a.reshape(n, -1).tolist()])
    ax.get_xlim(), ax.get_ylim()   # settles the limits
    flat = [p for ps in points for p in ps]
    with np.errstate(all="ignore"):
        at = ax.transData.transform(flat) if flat else np.zeros((0, 2))
    box = ax.bbox
    seen = [p for p, (x, y) in zip(flat, at.tolist()) if box.x0 - 1 <= x <= box.x1 + 1 and box.y0 - 1 <= y <= box.y1 + 1]
    return {"points": points, "visible": seen, "cells": cells, "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
            "xticks": list(zip([float(x) for x in ax.get_xticks()], [t.get_text() for t in ax.get_xticklabels()])),
            "yticks": list(zip([float(x) for x in ax.get_yticks()], [t.get_text() for t in ax.get_yticklabels()])),
            "texts": [t.get_text() for t in ax.texts]}


class Pictures:
    """Every figure that is saved: (path, contents of its axes); the picture itself is only painted if `paint`."""

    def __init__(self, paint):
        self.paint, self.taken = paint, []

    def __enter__(self):
        import matplotlib.figure
        self.cls, self.real = matplotlib.figure.Figure, matplotlib.figure.Figure.savefig

        def savefig(fig, where, *args, **kw):
            if self.paint:
                self.real(fig, where, *args, **kw)
            else:
                open(where, "wb").close()
            self.taken.append((os.path.abspath(str(where)), [contents(ax) for ax in fig.axes]))
        self.cls.savefig = savefig
        return self

    def __exit__(self, *exc):
        self.cls.savefig = self.real


def call(args, change, paint=False):
    """Runs the program; returns (arguments that reached its runs, exit code, error output, figures, exception or None)."""
    folder = os.path.abspath("recorded")
    os.makedirs(folder, exist_ok=True)
    os.environ["VERIF_RECORD"], os.environ["VERIF_CHANGE"] = folder, json.dumps(change)
    argv, err, code, error = sys.argv, io.StringIO(), 0, None
    pictures = Pictures(paint)
    try:
        sut.sim.Simulation = Recorder
        sys.argv = ["batch-run.py"] + args
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(err), pictures:
            runpy.run_path(os.path.join(REPO, "batch-run.py"), run_name="__main__")
    except SystemExit as e:
        code = 0 if e.code is None else e.code
    except Exception as e:
        import traceback
        code, error = 1, traceback.format_exc()[-1500:]
    finally:
        sut.sim.Simulation, sys.argv = Real, argv
    got = []
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name)) as f:
            got.append(json.load(f))
        os.remove(os.path.join(folder, name))
    os.rmdir(folder)
    return got, code, err.getvalue(), pictures.taken, error
