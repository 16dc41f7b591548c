"""Reference model of the language (docs/language_spec.rst and the property texts).

 * AST classes with a token printer (every construct records the key of the token it begins with),
 * `denote(program)`: the labelled transition system the specification assigns to each routine,
 * parameter values in normal form.

Nothing here looks at /repo.
"""
from __future__ import annotations

from .values import Atom, mkstr, mkint, AStr, SInt

# ------------------------------------------------------------------------------------------------- parameters
# A parameter is Val(tokens, norm); norm is one of
#   ("i", int|SInt) ("fx", text) ("c", name) ("s", text) ("l", ((lang, text), ...)) ("p", name, x, y, xoff, yoff)


class Tok:
    __slots__ = ("t", "keys", "endkeys", "glue")

    def __init__(self, t, keys=(), endkeys=(), glue=None):
        self.t = t
        self.keys = list(keys)
        self.endkeys = list(endkeys)
        self.glue = glue


def T(*ts):
    return [x if isinstance(x, Tok) else Tok(x) for x in ts]


class Val:
    def __init__(self, toks, norm):
        self._toks = [x.t if isinstance(x, Tok) else x for x in toks]
        self.norm = norm

    def toks(self):
        return [Tok(x) for x in self._toks]


def vi(n, text=None):
    return Val([str(n) if text is None else text], ("i", n))


def vc(name):
    return Val([name], ("c", name))


_n = [0]


def fresh(prefix, kind="name"):
    _n[0] += 1
    return f"{prefix}{_n[0]}"


def vfx(text, norm=None):
    return Val([text], ("fx", norm if norm is not None else text))


def vs(text, q='"'):
    assert "\\" not in text or True
    return Val([mkstr([q, text, q])], ("s", text))


def vl(d):
    toks = ["{"]
    for i, (k, v) in enumerate(d):
        if i:
            toks.append(",")
        toks += [k, "=", mkstr(['"', v, '"'])]
    toks.append("}")
    return Val(toks, ("l", tuple(sorted((k, v) for k, v in d))))


def coord(x2):
    """half tiles -> text"""
    return ("-" if x2 < 0 else "") + str(abs(x2) // 2) + (".5" if x2 % 2 else "")


def vp(name, x2, y2):
    """x2/y2 in half tiles; offset field: 0 or 2"""
    return PosVal(name, x2, y2)


class PosVal(Val):
    def __init__(self, name, x2, y2):
        self._toks = ["Position", "<", mkstr(['"', name, '"']), ",", coord(x2), ",", coord(y2), ">"]
        self.norm = ("p", name, int(x2 / 2), int(y2 / 2), 2 if x2 % 2 else 0, 2 if y2 % 2 else 0)
        self.key = object()

    def toks(self):
        r = [Tok(x) for x in self._toks]
        r[0].keys.append(self.key)
        r[-1].endkeys.append(self.key)
        return r


OPNUM = {"FALSE": 0, "TRUE": 1, "==": 2, ">": 3, "<": 4, ">=": 5, "<=": 6, "!=": 7, "&": 8, "^": 9, "&<<": 10}
CALCNUM = {"=": 0, "-=": 1, "+=": 2, "*=": 3, "/=": 4}
PERF = "$PERF"
STOPPERS = {"Return", "End", "Hold", "JumpCommon", "Destroy"}


# ------------------------------------------------------------------------------------------------- AST


class Node:
    """`key` identifies the construct: the printer records where its first token stands."""

    def mark(self, toks):
        toks[0].keys.append(self)
        return toks


class Simple(Node):
    """A statement that is a straight list of operations: [(opname, [norm params])]; `kill`: control never continues."""

    control = False

    def __init__(self, body, ops, form="op"):
        self.body = body  # callable -> tokens without ';'
        self.ops = ops
        self.form = form

    def stmt(self):
        return self.mark(self.body()) + T(";")


class Block(Node):
    """A braces statement whose meaning is a straight list of ops (message switches, with-blocks)."""

    control = False

    def __init__(self, body, ops, form, subkeys=None):
        self.body = body
        self.ops = ops
        self.form = form
        self.subkeys = subkeys  # per op: key of the token the op belongs to (default: self)

    def stmt(self):
        return self.mark(self.body())


def commas(lists, trailing=False):
    out = []
    for i, l in enumerate(lists):
        if i:
            out += T(",")
        out += l
    if trailing and lists:
        out += T(",")
    return out


def op(name, *args, ctx=None, trailing=False):
    def body():
        r = T(name)
        if ctx:
            r += T("<", ctx[0]) + ctx[1].toks() + T(">")
        return r + T("(") + commas([a.toks() for a in args], trailing) + T(")")

    ops = []
    if ctx:
        ops.append((CTXOP[ctx[0]], [ctx[1].norm]))
    ops.append((name, [a.norm for a in args]))
    return Simple(body, ops, "op")


CTXOP = {"actor": "lives", "object": "object", "performer": "performer"}
CTXOPS = tuple(CTXOP.values())  # the op after one of these is run for that object: the routine itself goes on


def kw(word):
    return Simple(lambda: T(word), [({"return": "Return", "end": "End", "hold": "Hold"}[word], [])], word)


def assign(x, o, v):
    n = ("flag_Set", [x.norm, v.norm]) if o == "=" else ("flag_CalcValue", [x.norm, ("i", CALCNUM[o]), v.norm])
    return Simple(lambda: x.toks() + T(o) + v.toks(), [n], "assign" + o)


def assign_var(x, o, v):
    return Simple(
        lambda: x.toks() + T(o, "value", "(") + v.toks() + T(")"),
        [("flag_CalcVariable", [x.norm, ("i", CALCNUM[o]), v.norm])],
        "assignvar" + o,
    )


def assign_bit(x, i, v):
    n = ("flag_SetPerformance", [("i", i), v.norm]) if x.norm == ("c", PERF) else ("flag_CalcBit", [x.norm, ("i", i), v.norm])
    return Simple(lambda: x.toks() + T("[", str(i), "]", "=") + v.toks(), [n], "assignbit")


def clear(x):
    return Simple(lambda: T("clear") + x.toks(), [("flag_Clear", [x.norm])], "clear")


def init(x):
    return Simple(lambda: T("init") + x.toks(), [("flag_Initial", [x.norm])], "init")


def reset_dungeon():
    return Simple(lambda: T("reset", "dungeon_result"), [("flag_ResetDungeonResult", [])], "reset")


def reset_scn(x):
    return Simple(lambda: T("reset", "scn", "(") + x.toks() + T(")"), [("flag_ResetScenario", [x.norm])], "reset")


def adv_log(v):
    return Simple(lambda: T("adventure_log", "=") + v.toks(), [("flag_SetAdventureLog", [v.norm])], "adv")


def set_dmode(x, v):
    return Simple(
        lambda: T("dungeon_mode", "(") + x.toks() + T(")", "=") + v.toks(), [("flag_SetDungeonMode", [x.norm, v.norm])], "dm"
    )


def set_scn(x, a, b):
    return Simple(
        lambda: x.toks() + T("=", "scn", "[", str(a), ",", str(b), "]"),
        [("flag_SetScenario", [x.norm, ("i", a), ("i", b)])],
        "setscn",
    )


def with_block(kind, ident, inner):
    """inner: Simple / Jump / Call / Return ..."""
    if isinstance(inner, Simple):
        b = Block(
            lambda: T("with", "(", kind) + ident.toks() + T(")", "{") + inner.stmt() + T("}"),
            [(CTXOP[kind], [ident.norm])] + list(inner.ops),
            "with",
        )
        b.subkeys = [b] + [inner] * len(inner.ops)
        return b
    return WithCtl(kind, ident, inner)


def message_switch(which, x, cases, default=None):
    keys = [Node() for _ in cases]
    dk = Node()

    def body():
        r = T(which, "(") + x.toks() + T(")", "{")
        for k, (v, s) in zip(keys, cases):
            c = T("case")
            c[0].keys.append(k)
            r += c + v.toks() + T(":") + s.toks()
        if default is not None:
            c = T("default")
            c[0].keys.append(dk)
            r += c + T(":") + default.toks()
        return r + T("}")

    ops = [(which, [x.norm])] + [("CaseText", [v.norm, s.norm]) for v, s in cases]
    if default is not None:
        ops.append(("DefaultText", [default.norm]))
    b = Block(body, ops, "msgswitch")
    b.subkeys = [b] + keys + ([dk] if default is not None else [])
    return b


class Label(Node):
    def __init__(self, name, sign="@"):
        self.name = name
        self.sign = sign

    def stmt(self):
        return self.mark(T(self.sign, self.name, ";"))


class Jump(Node):
    def __init__(self, name):
        self.name = name

    def stmt(self):
        return self.mark(T("jump", "@", self.name, ";"))


class Call(Node):
    def __init__(self, name):
        self.name = name

    def stmt(self):
        return self.mark(T("call", "@", self.name, ";"))


class WithCtl(Node):
    def __init__(self, kind, ident, inner):
        self.kind, self.ident, self.inner = kind, ident, inner

    def stmt(self):
        return self.mark(T("with", "(", self.kind) + self.ident.toks() + T(")", "{") + self.inner.stmt() + T("}"))


class Break(Node):
    word = "break"

    def stmt(self):
        return self.mark(T(self.word, ";"))


class Continue(Break):
    word = "continue"


class BreakLoop(Break):
    word = "break_loop"


class Cond(Node):
    """One if-header."""

    def __init__(self, body, name, params, form):
        self.body, self.name, self.params, self.form = body, name, params, form

    def toks(self):
        return self.mark(self.body())


def c_op(x, o, v):
    n = ("Branch", [x.norm, v.norm]) if o == "==" else ("BranchValue", [x.norm, ("i", OPNUM[o]), v.norm])
    return Cond(lambda: x.toks() + T(o) + v.toks(), *n, "op" + o)


def c_var(x, o, v):
    return Cond(
        lambda: x.toks() + T(o, "value", "(") + v.toks() + T(")"), "BranchVariable", [x.norm, ("i", OPNUM[o]), v.norm], "var" + o
    )


def c_bit(x, i, neg=False):
    if x.norm == ("c", PERF):
        return Cond(
            lambda: (T("not") if neg else []) + x.toks() + T("[", str(i), "]"),
            "BranchPerformance",
            [("i", i), ("i", 0 if neg else 1)],
            "perf",
        )
    assert not neg
    return Cond(lambda: x.toks() + T("[", str(i), "]"), "BranchBit", [x.norm, ("i", i)], "bit")


SCNOPS = {
    "==": "BranchScenarioNow",
    "<=": "BranchScenarioNowBefore",
    "<": "BranchScenarioBefore",
    ">=": "BranchScenarioNowAfter",
    ">": "BranchScenarioAfter",
}


def c_scn(x, o, a, b):
    return Cond(
        lambda: T("scn", "(") + x.toks() + T(")", o, "[", str(a), ",", str(b), "]"),
        SCNOPS[o],
        [x.norm, ("i", a), ("i", b)],
        "scn" + o,
    )


def c_kw(word, neg=False):
    return Cond(
        lambda: (T("not") if neg else []) + T(word), "Branch" + word.capitalize(), [("i", 0 if neg else 1)], word
    )


def c_oper(name, *args):
    """operation as condition (Branch* kinds only)"""
    return Cond(lambda: T(name, "(") + commas([a.toks() for a in args]) + T(")"), name, [a.norm for a in args], "oper")


class If(Node):
    """arms: [(neg, [Cond], [stmts])], els: stmts or None"""

    def __init__(self, arms, els=None):
        self.arms, self.els = arms, els

    def stmt(self):
        r = []
        for i, (neg, conds, body) in enumerate(self.arms):
            w = T("if" if i == 0 else "elseif")
            w[0].keys.append((self, i))
            r += w + (T("not") if neg else []) + T("(")
            for j, c in enumerate(conds):
                if j:
                    r += T("||")
                r += c.toks()
            r += T(")", "{") + stmts_toks(body) + T("}")
        if self.els is not None:
            w = T("else")
            w[0].keys.append((self, "else"))
            r += w + T("{") + stmts_toks(self.els) + T("}")
        return self.mark(r)


class Hdr(Node):
    def __init__(self, body, name, params, form):
        self.body, self.name, self.params, self.form = body, name, params, form

    def toks(self):
        return self.mark(self.body())


def h_var(x):
    return Hdr(lambda: x.toks(), "Switch", [x.norm], "var")


def h_scn(x, i):
    """The index picks the field: 0 = scenario number, 1 = level."""
    return Hdr(
        lambda: T("scn", "(") + x.toks() + T(")", "[", str(i), "]"), ["SwitchScenario", "SwitchScenarioLevel"][i], [x.norm], "scn"
    )


def h_random(x):
    return Hdr(lambda: T("random", "(") + x.toks() + T(")"), "SwitchRandom", [x.norm], "random")


def h_dmode(x):
    return Hdr(lambda: T("dungeon_mode", "(") + x.toks() + T(")"), "SwitchDungeonMode", [x.norm], "dm")


def h_sector():
    return Hdr(lambda: T("sector", "(", ")"), "SwitchSector", [], "sector")


def h_oper(name, *args):
    return Hdr(lambda: T(name, "(") + commas([a.toks() for a in args]) + T(")"), name, [a.norm for a in args], "oper")


def k_val(v):
    return Hdr(lambda: v.toks(), "Case", [v.norm], "val")


def k_op(o, v):
    return Hdr(lambda: T(o) + v.toks(), "CaseValue", [("i", OPNUM[o]), v.norm], "op" + o)


def k_var(o, v):
    return Hdr(lambda: T(o, "value", "(") + v.toks() + T(")"), "CaseVariable", [("i", OPNUM[o]), v.norm], "var" + o)


def k_menu(s):
    return Hdr(lambda: T("menu", "(") + s.toks() + T(")"), "CaseMenu", [s.norm], "menu")


def k_menu2(v):
    return Hdr(lambda: T("menu2", "(") + v.toks() + T(")"), "CaseMenu2", [v.norm], "menu2")


class Switch(Node):
    """cases: [(Hdr or None for default, [stmts])]"""

    def __init__(self, hdr, cases):
        self.hdr, self.cases = hdr, cases

    def stmt(self):
        r = T("switch", "(") + self.hdr.toks() + T(")", "{")
        for i, (h, body) in enumerate(self.cases):
            w = T("default" if h is None else "case")
            w[0].keys.append((self, i))
            r += w
            if h is not None:
                r += h.toks()
            r += T(":")
            r += stmts_toks(body)
        return self.mark(r + T("}"))


class Forever(Node):
    def __init__(self, body):
        self.body = body

    def stmt(self):
        return self.mark(T("forever", "{") + stmts_toks(self.body) + T("}"))


class While(Node):
    def __init__(self, neg, cond, body):
        self.neg, self.cond, self.body = neg, cond, body

    def stmt(self):
        return self.mark(
            T("while") + (T("not") if self.neg else []) + T("(") + self.cond.toks() + T(")", "{") + stmts_toks(self.body) + T("}")
        )


class For(Node):
    def __init__(self, ini, cond, inc, body):
        self.ini, self.cond, self.inc, self.body = ini, cond, inc, body

    def stmt(self):
        return self.mark(
            T("for", "(") + self.ini.stmt() + self.cond.toks() + T(";") + self.inc.stmt() + T(")", "{") + stmts_toks(self.body) + T("}")
        )


class MacroCall(Node):
    def __init__(self, name, args=()):
        self.name, self.args = name, list(args)

    def stmt(self):
        return self.mark(T("~" + self.name, "(") + commas([a.toks() for a in self.args]) + T(")", ";"))


class Routine(Node):
    def __init__(self, header, body, kind="GENERIC", linked=None, name=None, alias=False):
        self.header, self.body, self.kind, self.linked, self.name, self.alias = header, body, kind, linked, name, alias

    def toks(self):
        r = self.header()
        if self.alias:
            return self.mark(r + T("{", "alias", "previous", ";", "}"))
        return self.mark(r + T("{") + stmts_toks(self.body) + T("}"))


def rt(i, body, alias=False):
    return Routine(lambda: T("def", str(i)), body, "GENERIC", ("i", 0), None, alias)


def rt_for(i, kind, target, body, style=0, alias=False):
    """style 0: `for actor X`, 1: `for actor(X)`, 2: deprecated `for_actor(X)`"""

    def h():
        if style == 0:
            return T("def", str(i), "for", kind) + target.toks()
        if style == 1:
            return T("def", str(i), "for", kind, "(") + target.toks() + T(")")
        return T("def", str(i), "for_" + kind, "(") + target.toks() + T(")")

    return Routine(h, body, kind.upper(), target.norm, None, alias)


def coro(name, body, alias=False):
    return Routine(lambda: T("coro", name), body, "COROUTINE", ("i", 0), name, alias)


class Macro(Node):
    def __init__(self, name, params, body):
        self.name, self.params, self.body = name, params, body

    def toks(self):
        return self.mark(T("macro", self.name, "(") + commas([T(p) for p in self.params]) + T(")", "{") + stmts_toks(self.body) + T("}"))


class Import(Node):
    def __init__(self, path):
        self.path = path

    def toks(self):
        return self.mark(T("import", mkstr(['"', self.path, '"']), ";"))


class Program:
    def __init__(self, items, imports=()):
        self.items = list(items)
        self.imports = list(imports)

    def toks(self):
        r = []
        for i in self.imports:
            r += i.toks()
        for i in self.items:
            r += i.toks()
        return r

    @property
    def routines(self):
        return [x for x in self.items if isinstance(x, Routine)]

    @property
    def macros(self):
        return [x for x in self.items if isinstance(x, Macro)]


def stmts_toks(stmts):
    r = []
    for s in stmts:
        r += s.stmt()
    return r


# ------------------------------------------------------------------------------------------------- rendering


def _wordy(c):
    return c.isalnum() or c in "_$~.-"


def rep_text(t):
    if isinstance(t, str):
        return t
    return "".join(p if isinstance(p, str) else p.rep for p in t.parts)


def render(toks, layout=0):
    """-> (source, {key: (line, col)}, {key: (line, col) of the end})   lines/cols zero based.

    layout 0: one statement per line, indented;  1: everything on one line, minimal blanks;
    2: every token on its own line;  3: comments and odd blanks between all tokens."""
    out = []
    line = col = 0
    pos, end = {}, {}
    depth = 0
    prev = None

    def emit(s):
        nonlocal line, col
        out.append(s)
        r = rep_text(s) if not isinstance(s, str) else s
        nl = r.count("\n")
        if nl:
            line += nl
            col = len(r) - r.rfind("\n") - 1
        else:
            col += len(r)

    paren = 0
    n = 0
    for tk in toks:
        r = rep_text(tk.t)
        if layout == 0:
            if prev is None:
                pass
            elif r == "}" and paren == 0:
                depth -= 1
                emit("\n" + "    " * max(0, depth))
            elif prev in (";", "{", "}", ":") and paren == 0:
                emit("\n" + "    " * depth)
            elif r in (";", ")", ",", "]", ":", "(") or prev in ("(", "[", "@", "<") or r == "[":
                if prev and _wordy(prev[-1]) and _wordy(r[0]):
                    emit(" ")
            else:
                emit(" ")
            if r == "{" and paren == 0:
                depth += 1
            if r == "(":
                paren += 1
            if r == ")":
                paren -= 1
        elif layout == 1:
            if prev is not None and ((_wordy(prev[-1]) and _wordy(r[0])) or (prev[-1] in "<>=&!+-*/|^" and r[0] in "<>=&!+-*/|^") or prev[-1] in "\"'" and r[0] in "\"'"):
                emit(" ")
        elif layout == 2:
            if prev is not None:
                emit("\n" + " " * (n % 5))
        elif layout == 3:
            if prev is not None:
                emit([" /* c; } */ ", " // x {\n\t", "\r\n  ", " /*\n*/\n ", "\t", " \n\n "][n % 6])
            else:
                emit("// leading\n/* block */ ")
        n += 1
        for k in tk.keys:
            pos[k] = (line, col)
        for k in tk.endkeys:
            end[k] = (line, col)
        emit(tk.t)
        prev = r
    emit("\n")
    return mkstr(out), pos, end


# ------------------------------------------------------------------------------------------------- denotation


class N:
    """LTS node. kind: op(name,params,next) | test(name,params,yes,no) | call(yes,no) | eps(next) | stop"""

    __slots__ = ("kind", "name", "params", "a", "b", "key", "exp", "jkey")

    def __init__(self, kind, name=None, params=None, a=None, b=None, key=None, exp=()):
        self.kind, self.name, self.params, self.a, self.b, self.key, self.exp = kind, name, params, a, b, key, exp
        self.jkey = None

    def __repr__(self):
        return f"N({self.kind} {self.name})"


STOP = N("stop")


class Ref:
    """Denotation of a program (macros: {name: Macro}; every call is inlined)."""

    def __init__(self, prog, macros=None):
        self.labels = {}
        self.macros = dict(macros or {})
        for m in prog.macros:
            self.macros[m.name] = m
        self.depth = 0
        self.entry = []
        self.exp_counter = 0
        prev = None
        for r in prog.routines:
            if r.alias:
                self.entry.append("alias")
                continue
            env = Env(None, None, None, self.labels, None, {}, ())
            ret = N("op", "Return", [], STOP, key=None)
            self.entry.append(self.seq(r.body, ret, env))
        for n in self.labels.values():
            if n.a is None:
                raise ValueError("undefined label in generated program")

    def label(self, env, name):
        return env.labels.setdefault(name, N("eps"))

    def seq(self, stmts, k, env):
        for s in reversed(stmts):
            k = self.stmt(s, k, env)
        return k

    def sub(self, p, env):
        if p[0] == "c" and p[1] in env.subst:
            return env.subst[p[1]]
        return p

    def subs(self, ps, env):
        return [self.sub(p, env) for p in ps]

    def test(self, c, yes, no, env):
        return N("test", c.name, self.subs(c.params, env), yes, no, c, env.exp)

    def stmt(self, s, k, env):
        if isinstance(s, (Simple, Block)):
            sk = getattr(s, "subkeys", None) or [s] * len(s.ops)
            for i, ((nm, ps), key) in reversed(list(enumerate(zip(s.ops, sk)))):
                if nm == "Return" and env.ret is not None:
                    n = N("eps", a=env.ret, key=key, exp=env.exp)
                    n.jkey = key
                    k = n
                elif nm in STOPPERS and not (i and s.ops[i - 1][0] in CTXOPS):
                    k = N("op", nm, self.subs(ps, env), STOP, key=key, exp=env.exp)
                else:
                    k = N("op", nm, self.subs(ps, env), k, key=key, exp=env.exp)
            return k
        if isinstance(s, WithCtl):
            inner = self.stmt(s.inner, k, env)
            return N("op", CTXOP[s.kind], [self.sub(s.ident.norm, env)], inner, key=s, exp=env.exp)
        if isinstance(s, Label):
            n = self.label(env, s.name)
            if n.a is not None:
                raise ValueError("duplicate label in generated program")
            n.a = k
            return n
        if isinstance(s, Jump):
            n = N("eps", a=self.label(env, s.name), key=s, exp=env.exp)
            n.jkey = s
            return n
        if isinstance(s, Call):
            return N("call", a=self.label(env, s.name), b=k, key=s, exp=env.exp)
        if isinstance(s, BreakLoop):
            return self._jk(env.brk_loop, s, env)
        if isinstance(s, Continue):
            return self._jk(env.cont, s, env)
        if isinstance(s, Break):
            return self._jk(env.brk, s, env)
        if isinstance(s, If):
            rest = k if s.els is None else self.seq(s.els, k, env)
            for neg, conds, body in reversed(s.arms):
                b = self.seq(body, k, env)
                yes, no = (rest, b) if neg else (b, rest)
                n = no
                for c in reversed(conds):
                    n = self.test(c, yes, n, env)
                rest = n
            return rest
        if isinstance(s, Switch):
            e2 = env.with_(brk=k)
            entries = []
            nxt = k
            for h, body in reversed(s.cases):
                nxt = self.seq(body, nxt, e2)
                entries.append(nxt)
            entries.reverse()
            dflt = k
            for (h, _b), e in zip(s.cases, entries):
                if h is None:
                    dflt = e
            n = dflt
            for (h, _b), e in reversed(list(zip(s.cases, entries))):
                if h is not None:
                    nm, ps = h.name, h.params
                    if s.hdr.name == "SwitchScenario" and nm == "CaseValue":
                        nm = "CaseScenario"
                    n = N("test", nm, self.subs(ps, env), e, n, h, env.exp)
            return N("op", s.hdr.name, self.subs(s.hdr.params, env), n, key=s.hdr, exp=env.exp)
        if isinstance(s, Forever):
            head = N("eps")
            head.a = self.seq(s.body, head, env.with_(cont=head, brk_loop=k))
            return head
        if isinstance(s, While):
            head = N("eps")
            b = self.seq(s.body, head, env.with_(cont=head, brk_loop=k))
            head.a = self.test(s.cond, k, b, env) if s.neg else self.test(s.cond, b, k, env)
            return head
        if isinstance(s, For):
            head = N("eps")
            inc = self.stmt(s.inc, head, env)
            b = self.seq(s.body, inc, env.with_(cont=inc, brk_loop=k))
            head.a = self.test(s.cond, b, k, env)
            return self.stmt(s.ini, head, env)
        if isinstance(s, MacroCall):
            m = self.macros[s.name]
            self.depth += 1
            if self.depth > 40:
                raise ValueError("recursion in generated program")
            self.exp_counter += 1
            args = self.subs([a.norm for a in s.args], env)
            sub = dict(zip(m.params, args))
            e2 = Env(None, None, None, {}, k, sub, env.exp + ((m, s, self.exp_counter),))
            n = self.seq(m.body, k, e2)
            for l in e2.labels.values():
                if l.a is None:
                    raise ValueError("undefined label in generated macro")
            self.depth -= 1
            return n
        raise TypeError(s)

    def _jk(self, target, s, env):
        n = N("eps", a=target, key=s, exp=env.exp)
        n.jkey = s
        return n


class Env:
    def __init__(self, brk, cont, brk_loop, labels, ret, subst, exp):
        self.brk, self.cont, self.brk_loop, self.labels, self.ret, self.subst, self.exp = brk, cont, brk_loop, labels, ret, subst, exp

    def with_(self, **k):
        e = Env(self.brk, self.cont, self.brk_loop, self.labels, self.ret, self.subst, self.exp)
        for a, b in k.items():
            setattr(e, a, b)
        return e
