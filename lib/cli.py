"""Runs the programs of the repository as a user would, in a scratch directory."""
import os
import subprocess
import sys

from common import PY, REPO

MULTI = ("k", "a0")
SKIP = ("seq_id", "parent_dir", "input_from_file")


def argv(cfg, given=None):
    """Command-line arguments for a configuration (only those named in `given`, if it is there)."""
    out = []
    for name, v in cfg.items():
        if name.startswith("_") or name in SKIP or v is None or (given is not None and name not in given):
            continue
        if isinstance(v, bool):
            out.append("--%s%s" % ("" if v else "no-", name))
        elif isinstance(v, list):
            out += ["--" + name] + [str(x) for x in v]
        else:
            out += ["--" + name, str(v)]
    return out


def single_phase(cfg, keep=MULTI):
    for name, v in list(cfg.items()):
        if isinstance(v, list) and name not in ("metrics", "agent_profile_distr") and name not in keep:
            cfg[name] = v[0]
    return cfg


def env(**kw):
    e = dict(os.environ, PYTHONPATH="", PYTHONWARNINGS="ignore", MPLBACKEND="Agg")
    e.pop("PYTHONHASHSEED", None)
    e.update(kw)
    return e


def start(script, args, cwd=None, **kw):
    return subprocess.Popen([PY, os.path.join(REPO, script)] + args, cwd=cwd or os.getcwd(), env=env(**kw), text=True,
                            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def run(script, args, cwd=None, timeout=300, **kw):
    p = start(script, args, cwd, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise
    return p.returncode, out, err
