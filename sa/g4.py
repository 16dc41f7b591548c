"""Reads the .g4 grammars of /repo and derives covering sets of token sequences from them.

The grammar is only a generator of inputs here: which texts are accepted is decided by interpreting the generated parser.
"""
from __future__ import annotations

import os
import re
from functools import lru_cache

TOK = re.compile(r"\s+|//[^\n]*|/\*.*?\*/|'(?:\\.|[^'\\])*'|\[(?:\\.|[^\]\\])*\]|->|[A-Za-z_][A-Za-z_0-9]*|[:;|()?*+~.]", re.S)


def lex(text):
    out = []
    i = 0
    while i < len(text):
        m = TOK.match(text, i)
        if m is None:
            i += 1
            continue
        t = m.group()
        i = m.end()
        if t.isspace() or t.startswith("//") or t.startswith("/*"):
            continue
        out.append(t)
    return out


class Grammar:
    def __init__(self, repo, name):
        self.rules = {}
        self.lits = {}
        self.load(os.path.join(repo, "explorerscript", "antlr", name + ".g4"), os.path.join(repo, "explorerscript", "antlr"))
        self._min = {}

    def load(self, path, d):
        ts = lex(open(path, encoding="utf-8").read())
        i = 0
        own = {}
        imports = []
        while i < len(ts):
            if ts[i] == "grammar":
                i = ts.index(";", i) + 1
            elif ts[i] == "import":
                j = ts.index(";", i)
                imports += ts[i + 1 : j]
                i = j + 1
            else:
                frag = ts[i] == "fragment"
                if frag:
                    i += 1
                nm = ts[i]
                assert ts[i + 1] == ":", ts[i : i + 3]
                j = i + 2
                while ts[j] != ";":
                    j += 1
                body = ts[i + 2 : j]
                if nm[0].islower():
                    own[nm] = body
                elif len(body) == 1 and body[0][0] == "'":
                    self.lits.setdefault(nm, body[0][1:-1].replace("\\'", "'"))
                i = j + 1
        for nm, body in own.items():
            if nm not in self.rules:
                p = P(body)
                self.rules[nm] = p.alts()
                assert p.i == len(body), (nm, body)
        for m in imports:
            self.load(os.path.join(d, m + ".g4"), d)

    # ---------------------------------------------------------------- derivations
    SAMPLES = {
        "IDENTIFIER": ["abc", "actor", "Jump"],
        "VARIABLE": ["$v"],
        "MACRO_CALL": ["~mac", "~other"],
        "INTEGER": ["7", "0", "-1", "0x10"],
        "DECIMAL": ["1.5", "-.25"],
        "STRING_LITERAL": ["'s'", '"a\\nb"'],
        "MULTILINE_STRING_LITERAL": ['"""m\n n"""'],
        "FOR_TARGET": ["for_actor"],
        "EOF": [""],
    }

    def tok(self, name):
        if name in self.SAMPLES:
            return self.SAMPLES[name]
        return [self.lits[name]]

    def minimal(self, node, seen=()):
        """shortest token list of a node, or None when it only recurses"""
        k = node[0]
        if k == "t":
            s = self.tok(node[1])[0]
            return [s] if s else []
        if k == "l":
            return [node[1]]
        if k == "r":
            if node[1] in self._min:
                return self._min[node[1]]
            if node[1] in seen:
                return None
            r = self.minimal(self.rules[node[1]], seen + (node[1],))
            if r is not None and not seen:
                self._min[node[1]] = r
            return r
        if k == "seq":
            out = []
            for c in node[1]:
                r = self.minimal(c, seen)
                if r is None:
                    return None
                out += r
            return out
        if k == "alt":
            best = None
            for c in node[1]:
                r = self.minimal(c, seen)
                if r is not None and (best is None or len(r) < len(best)):
                    best = r
            return best
        if k in "?*":
            return []
        return self.minimal(node[1], seen)

    def variants(self, node, depth, rec):
        """token lists: every alternative / option once, one place varied at a time. rec: remaining re-entries per rule."""
        k = node[0]
        if k == "t":
            for s in self.tok(node[1]):
                yield [s] if s else []
        elif k == "l":
            yield [node[1]]
        elif k == "r":
            n = rec.get(node[1], 2)
            if depth <= 0 or n <= 0:
                yield self.minimal(node)
                return
            yield from self.variants(self.rules[node[1]], depth - 1, {**rec, node[1]: n - 1})
        elif k == "alt":
            for c in node[1]:
                yield from self.variants(c, depth, rec)
        elif k == "seq":
            mins = [self.minimal(c) for c in node[1]]
            yield sum(mins, [])
            for i, c in enumerate(node[1]):
                for v in self.variants(c, depth, rec):
                    if v != mins[i]:
                        yield sum(mins[:i], []) + v + sum(mins[i + 1 :], [])
        elif k == "?":
            yield []
            yield from self.variants(node[1], depth, rec)
        else:
            if k == "*":
                yield []
            m = self.minimal(node[1])
            yield from self.variants(node[1], depth, rec)
            yield m + m
            yield m + m + m


class P:
    def __init__(self, ts):
        self.ts, self.i = ts, 0

    def alts(self):
        out = [self.seq()]
        while self.i < len(self.ts) and self.ts[self.i] == "|":
            self.i += 1
            out.append(self.seq())
        return out[0] if len(out) == 1 else ("alt", out)

    def seq(self):
        out = []
        while self.i < len(self.ts) and self.ts[self.i] not in "|)":
            t = self.ts[self.i]
            self.i += 1
            if t == "(":
                n = self.alts()
                assert self.ts[self.i] == ")"
                self.i += 1
            elif t[0] == "'":
                n = ("l", t[1:-1])
            elif t[0].isupper():
                n = ("t", t)
            else:
                n = ("r", t)
            while self.i < len(self.ts) and self.ts[self.i] in "?*+":
                n = (self.ts[self.i], n)
                self.i += 1
            out.append(n)
        return ("seq", out)


def uniq(it):
    seen = set()
    for t in it:
        k = tuple(t)
        if k not in seen:
            seen.add(k)
            yield t
