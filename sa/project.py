"""A compilation unit: main program, further files, lookup paths, and what the reference says about them."""
from __future__ import annotations

import posixpath

from .spec import *

MAIN = "/v/main.exps"


class Project:
    """files: {absolute path: Program}; visible: {macro name: Macro} as the main file sees them (default: all of them)."""

    def __init__(self, main, files=None, lookup=None, path=MAIN, macros=None, extra_fs=None):
        self.main, self.files, self.lookup, self.path = main, dict(files or {}), lookup, path
        self.extra_fs = dict(extra_fs or {})
        self.macros = {}
        self.file_of = {}
        for p, f in self.files.items():
            for m in f.macros:
                self.macros[m.name] = m
                self.file_of[id(m)] = posixpath.relpath(p, posixpath.dirname(path))
        for m in main.macros:
            self.macros[m.name] = m
            self.file_of[id(m)] = None
        if macros:
            self.macros.update(macros)

    def render(self, layout=0):
        self.pos, self.end, self.src = {}, {}, {}
        for p, f in list(self.files.items()) + [(self.path, self.main)]:
            src, pos, end = render(f.toks(), layout)
            self.src[p] = src
            self.pos.update(pos)
            self.end.update(end)
        return self.src

    def fs(self):
        d = dict(self.extra_fs)
        d.update({p: s for p, s in self.src.items() if p != self.path})
        return d

    def compile(self, P, layout=0):
        self.render(layout)
        return P.compile(self.src[self.path], self.path, self.fs(), self.lookup)

    def ref(self):
        return Ref(self.main, self.macros)

    def text(self):
        out = []
        for p, s in self.src.items():
            out.append(f"// {p}\n{rep_text(s)}")
        if self.lookup:
            out.append(f"// lookup: {self.lookup}")
        return "\n".join(out)


def as_project(x):
    return x if isinstance(x, Project) else Project(x)
