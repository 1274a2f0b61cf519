"""A workspace in a scratch directory, driven through the command line interface of causy."""
import contextlib
import os
import shutil
import sys

import pydantic_yaml
import questionary
import yaml
from typer.testing import CliRunner

from lib.harness import scratch

try:
    RUNNER = CliRunner(mix_stderr=True)
except TypeError:
    RUNNER = CliRunner()


class _Answer:
    def __init__(self, value):
        self.value = value

    def ask(self, *a, **k):
        return self.value

    unsafe_ask = ask


class Questions:
    """Answers by content, not by order: a selection takes the first of `picks` that is offered, a text question the
    name whose keyword occurs in the question."""

    def __init__(self, picks=(), texts=None, path=None):
        self.picks, self.texts, self.file = list(picks), dict(texts or {}), path
        self.unexpected = []

    def _values(self, choices):
        out = []
        for c in choices:
            if isinstance(c, questionary.Choice):
                out.append(c.value)
            elif isinstance(c, dict):
                out.append(c.get("value", c.get("name")))
            else:
                out.append(c)
        return out

    def select(self, message, choices=(), *a, **k):
        vals = self._values(choices)
        for p in self.picks:
            if p in vals:
                self.picks.remove(p)
                return _Answer(p)
        self.unexpected.append((message, vals))
        raise RuntimeError("no answer for %r among %r" % (message, vals))

    def text(self, message, *a, **k):
        for word, val in self.texts.items():
            if word in message.lower():
                return _Answer(val)
        raise RuntimeError("no answer for %r" % message)

    def path(self, message, *a, **k):
        return _Answer(self.file)


@contextlib.contextmanager
def answering(q):
    old = questionary.select, questionary.text, questionary.path
    questionary.select, questionary.text, questionary.path = q.select, q.text, q.path
    try:
        yield
    finally:
        questionary.select, questionary.text, questionary.path = old


def cli(args, questions=None, stdin=None):
    """-> (exit code, output, exception or None)"""
    from causy.cli import app

    with answering(questions or Questions()):
        r = RUNNER.invoke(app, args, input=stdin)
    exc = r.exception if r.exception is not None and not isinstance(r.exception, SystemExit) else None
    return r.exit_code, r.output, exc


@contextlib.contextmanager
def inside(d):
    """chdir, and forget what was imported from there afterwards"""
    old, path = os.getcwd(), list(sys.path)
    mods = set(sys.modules)
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)
        sys.path[:] = path
        for m in set(sys.modules) - mods:
            f = getattr(sys.modules[m], "__file__", None) or ""
            if f.startswith(d):
                del sys.modules[m]


def files(d="."):
    out = {}
    for base, _, names in os.walk(d):
        if "__pycache__" in base:
            continue
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def restore(state, d="."):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    for n, b in state.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)


def ref(r):
    return (str(getattr(r.type, "value", r.type)), r.reference)


def current():
    """the workspace as causy itself reads it"""
    from causy.workspaces import cli as c

    f = getattr(c, "_current_workspace", None)
    if f is not None:
        return f()
    from causy.workspaces.models import Workspace

    sys.path.append(os.getcwd())
    with open("workspace.yml") as f:
        return pydantic_yaml.parse_yaml_raw_as(Workspace, f.read())


def put(w):
    """write a workspace file without causy's commands"""
    with open("workspace.yml", "w") as f:
        f.write(pydantic_yaml.to_yaml_str(w))


def load_workspace():
    """what causy itself reads"""
    w = current()
    return {
        "name": w.name,
        "author": w.author,
        "pipelines": {k: ref(v) for k, v in (w.pipelines or {}).items()},
        "dataloaders": {k: ref(v) + (v.options,) for k, v in (w.dataloaders or {}).items()},
        "experiments": {k: (v.pipeline, v.dataloader, dict(v.variables or {})) for k, v in (w.experiments or {}).items()},
    }
