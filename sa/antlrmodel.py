"""Model of the ANTLR 4 Python runtime.

The generated lexers/parsers of the repository are interpreted like the rest of its source; this file models what they
import from the runtime.  The transition networks (`serializedATN()` literals) are decoded from the generated files.
Source text may contain atoms; the characters of an atom's representative decide its tokenisation, and tokens carry the
abstract text.
"""
from __future__ import annotations

import ast
import glob
import os
import sys

from .engine import *
from .values import *

EOF = -1
(ST_BASIC, ST_RULE_START, ST_BLOCK_START, ST_PLUS_START, ST_STAR_START, ST_TOKEN_START, ST_RULE_STOP, ST_BLOCK_END, ST_STAR_BACK, ST_STAR_ENTRY, ST_PLUS_BACK, ST_LOOP_END) = range(1, 13)
(EPS, RANGE, RULE, PRED, ATOM, ACTION, SET, NOTSET, WILD, PREC) = range(1, 11)


class Atn:
    def __init__(self, data):
        it = iter(data)

        def rd():
            return next(it)

        if rd() != 4:
            raise Undecided("serialized ATN version")
        self.lexer = rd() == 0
        self.max_token = rd()
        n = rd()
        self.stype = []
        self.srule = []
        for _ in range(n):
            t = rd()
            self.stype.append(t)
            if t == 0:
                self.srule.append(-1)
                continue
            self.srule.append(rd())
            if t == ST_LOOP_END or t in (ST_BLOCK_START, ST_PLUS_START, ST_STAR_START):
                rd()
        self.nongreedy = {rd() for _ in range(rd())}
        for _ in range(rd()):
            rd()
        self.rule_start = []
        self.rule_tok = []
        for _ in range(rd()):
            self.rule_start.append(rd())
            if self.lexer:
                self.rule_tok.append(rd())
        self.modes = [rd() for _ in range(rd())]
        sets = []
        for _ in range(rd()):
            k = rd()
            eof = rd()
            s = [(-1, -1)] if eof else []
            for _ in range(k):
                a = rd()
                s.append((a, rd()))
            sets.append(tuple(s))
        self.sets = sets
        self.edges = [[] for _ in range(n)]
        for _ in range(rd()):
            src, trg, tt, a1, a2, a3 = rd(), rd(), rd(), rd(), rd(), rd()
            if tt == EPS:
                e = (EPS, trg, None)
            elif tt == RANGE:
                e = (SET, trg, ((-1 if a3 else a1, a2),)) if not a3 else (SET, trg, ((-1, a2),))
            elif tt == RULE:
                # trg = follow state, a1 = start state of the rule (arguments of the serialised form)
                e = (RULE, a1, trg)
            elif tt == ATOM:
                v = -1 if a3 else a1
                e = (SET, trg, ((v, v),))
            elif tt in (SET, NOTSET):
                e = (tt, trg, sets[a1])
            elif tt == WILD:
                e = (WILD, trg, None)
            elif tt == ACTION:
                e = (ACTION, trg, a2)
            else:
                e = (PRED, trg, None)
            self.edges[src].append(e)
        self.decisions = [rd() for _ in range(rd())]
        self.actions = []
        if self.lexer:
            for _ in range(rd()):
                self.actions.append((rd(), rd(), rd()))
        self.rule_actions = {}
        for s in range(n):
            for e in self.edges[s]:
                if e[0] == ACTION and self.lexer:
                    self.rule_actions.setdefault(self.srule[s], []).append(self.actions[e[2]])
        self._dfa = {}
        self._start = None
        self._ids = {}

    @property
    def decisionToState(self):
        return self.decisions

    # ------------------------------------------------------------------ matching of one symbol
    def matches(self, e, c):
        k = e[0]
        if k == SET:
            for a, b in e[2]:
                if a <= c <= b:
                    return True
            return False
        if k == NOTSET:
            if c < 0:
                return False
            for a, b in e[2]:
                if a <= c <= b:
                    return False
            return True
        return k == WILD and c >= 0

    # ------------------------------------------------------------------ lexer
    def lclosure(self, out, seen, state, alt, stack, ng, acc=False):
        """Ordered epsilon closure; returns True when the alternative reached its end.  Lower-priority configurations
        of such an alternative that passed a non-greedy decision are dropped."""
        ng = ng or state in self.nongreedy
        k = (state, alt, stack, ng)
        if self.stype[state] == ST_RULE_STOP:
            if not stack:
                if k not in seen:
                    seen.add(k)
                    out.append(k)
                return True
            return self.lclosure(out, seen, stack[0], alt, stack[1], ng, acc)
        if k in seen:
            return acc
        seen.add(k)
        es = self.edges[state]
        if any(e[0] in (SET, NOTSET, WILD) for e in es) and not (acc and ng):
            out.append(k)
        for e in es:
            if e[0] in (EPS, ACTION):
                acc = self.lclosure(out, seen, e[1], alt, stack, ng, acc)
            elif e[0] == RULE:
                acc = self.lclosure(out, seen, e[1], alt, (e[2], stack), ng, acc)
        return acc

    def lstart(self):
        if self._start is None:
            out, seen = [], set()
            for i, e in enumerate(self.edges[self.modes[0]]):
                self.lclosure(out, seen, e[1], i + 1, (), False)
            self._start = self.lid(out)
        return self._start

    def lid(self, confs):
        k = tuple(confs)
        if k not in self._ids:
            acc = None
            for st, alt, stack, ng in k:
                if self.stype[st] == ST_RULE_STOP:
                    acc = self.srule[st]
                    break
            self._ids[k] = (len(self._ids), k, acc)
        return self._ids[k]

    def lstep(self, d, c):
        key = (d[0], c)
        r = self._dfa.get(key)
        if r is None:
            out, seen = [], set()
            skip = 0
            for st, alt, stack, ng in d[1]:
                if alt == skip and ng:
                    continue
                for e in self.edges[st]:
                    if e[0] in (SET, NOTSET, WILD) and self.matches(e, c):
                        if self.lclosure(out, seen, e[1], alt, stack, ng):
                            skip = alt
                            break
            r = self._dfa[key] = self.lid(out) if out else False
        return r

    def tokens(self, text):
        """[(rule, start, stop)] of a concrete text; stop exclusive."""
        pos = 0
        n = len(text)
        res = []
        while pos < n:
            d = self.lstart()
            i = pos
            best = None
            while True:
                c = ord(text[i]) if i < n else -1
                d = self.lstep(d, c)
                if not d:
                    break
                if c != -1:
                    i += 1
                if d[2] is not None:
                    best = (d[2], i)
                if c == -1:
                    break
            if best is None or best[1] == pos:
                res.append((None, pos, pos + 1))
                pos += 1
                continue
            res.append((best[0], pos, best[1]))
            pos = best[1]
        return res

    # ------------------------------------------------------------------ parser prediction (full context)
    def pclosure(self, out, seen, state, alt, stack):
        k = (state, alt, stack)
        if k in seen:
            return
        seen.add(k)
        if self.stype[state] == ST_RULE_STOP:
            if stack:
                self.pclosure(out, seen, stack[0], alt, stack[1])
            else:
                out.append(k)
            return
        for e in self.edges[state]:
            if e[0] in (EPS, ACTION):
                self.pclosure(out, seen, e[1], alt, stack)
            elif e[0] == RULE:
                self.pclosure(out, seen, e[1], alt, (e[2], stack))
            elif e[0] in (SET, NOTSET, WILD):
                if k not in out:
                    out.append(k)
            else:
                raise Undecided("predicate in parser ATN")

    def predict(self, decision, la, stack):
        s = self.decisions[decision]
        confs, seen = [], set()
        for i, e in enumerate(self.edges[s]):
            if e[0] == EPS:
                self.pclosure(confs, seen, e[1], i + 1, stack)
            elif e[0] == RULE:
                self.pclosure(confs, seen, e[1], i + 1, (e[2], stack))
            else:
                confs.append((s, i + 1, stack, i))
        i = 1
        while True:
            alts = {c[1] for c in confs}
            if len(alts) == 1:
                return alts.pop()
            if not confs:
                return 0
            groups = {}
            for c in confs:
                groups.setdefault((c[0], c[2]), set()).add(c[1])
            gs = list(groups.values())
            if all(len(g) > 1 and g == gs[0] for g in gs):
                return min(gs[0])
            t = la(i)
            out, seen = [], set()
            for c in confs:
                es = self.edges[c[0]]
                if len(c) == 4:
                    es = [es[c[3]]]
                for e in es:
                    if e[0] in (SET, NOTSET, WILD) and self.matches(e, t):
                        self.pclosure(out, seen, e[1], c[1], c[2])
            if t == EOF:
                if not out:
                    out = [c for c in confs if self.stype[c[0]] == ST_RULE_STOP]
                return min((c[1] for c in out), default=0)
            confs = out
            i += 1


_ATN = {}


_REAL = []


def unmodelled(nm):
    """Is nm an attribute of some class of the antlr4 runtime? (names read from its source; then the model is incomplete)"""
    if not _REAL:
        names = set()
        for d in sys.path + glob.glob("/opt/venv/lib/python3*/site-packages"):
            for f in glob.glob(os.path.join(d, "antlr4", "**", "*.py"), recursive=True):
                try:
                    with open(f, encoding="utf-8") as fh:
                        t = ast.parse(fh.read())
                except (OSError, SyntaxError, ValueError):
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.FunctionDef):
                        names.add(n.name)
                    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        names.add(n.attr)
                    elif isinstance(n, (ast.Assign, ast.ClassDef)) and isinstance(getattr(n, "targets", [None])[0], ast.Name):
                        names.add(n.targets[0].id)
        _REAL.append(names)
    return nm in _REAL[0]


def split_source(text):
    """(concrete text, list of (start, stop, atom)) of an abstract source text."""
    out = []
    spans = []
    pos = 0
    for p in parts_of(text):
        if isinstance(p, str):
            out.append(p)
            pos += len(p)
        else:
            out.append(p.rep)
            spans.append((pos, pos + len(p.rep), p))
            pos += len(p.rep)
    return "".join(out), spans


def slice_text(conc, spans, a, b):
    if not spans:
        return conc[a:b]
    parts = []
    i = a
    for s, e, at in spans:
        if e <= a or s >= b:
            continue
        if s < i or e > b:
            raise Undecided("a token boundary inside an unknown leaf")
        parts.append(conc[i:s])
        parts.append(at)
        i = e
    parts.append(conc[i:b])
    return mkstr(parts)


def install(I):
    def cls(name, bases=(), module="antlr4", **m):
        c = Cls(name, list(bases), {}, module, name)
        for k, v in m.items():
            c.ns[k] = Native(v, k)
        return c

    object_ = []
    Token = cls("Token")
    define_token = dict(
        getInputStream=lambda s: s.d["source"][1] if s.d["source"] else None,
        getTokenSource=lambda s: s.d["source"][0] if s.d["source"] else None,
    )
    for k, v in define_token.items():
        Token.ns[k] = Native(v, k)
    Token.ns.update({"EOF": -1, "INVALID_TYPE": 0, "EPSILON": -2, "DEFAULT_CHANNEL": 0, "HIDDEN_CHANNEL": 1})
    ParseTree = cls("ParseTree")
    RuleNode = cls("RuleNode", [ParseTree])
    TerminalNode = cls("TerminalNode", [ParseTree])
    ErrorNode = cls("ErrorNode", [TerminalNode])
    TerminalNodeImpl = cls("TerminalNodeImpl", [TerminalNode])

    def tn_init(self, symbol):
        self.d["symbol"] = symbol
        self.d["parentCtx"] = None

    def text_of(node):
        if "symbol" in node.d:
            return node.d["symbol"].d["text"]
        r = []
        for c in node.d["children"] or []:
            r.extend(parts_of(text_of(c)))
        return mkstr(r)

    def define(c, **m):
        for k, v in m.items():
            c.ns[k] = Native(v, k)

    define(TerminalNodeImpl, __init__=tn_init, getSymbol=lambda s: s.d["symbol"], getParent=lambda s: s.d["parentCtx"], getPayload=lambda s: s.d["symbol"],
           getChildCount=lambda s: 0, getChild=lambda s, i: None, getChildren=lambda s: [], accept=lambda s, v: I.call_method(v, "visitTerminal", [s]),
           getText=text_of, __str__=lambda s: "<EOF>" if s.d["symbol"].d["type"] == -1 else s.d["symbol"].d["text"])
    ErrorNodeImpl = cls("ErrorNodeImpl", [TerminalNodeImpl, ErrorNode])

    RuleContext = cls("RuleContext", [RuleNode])
    PRC = cls("ParserRuleContext", [RuleContext])

    def prc_init(self, parent=None, invokingStateNumber=None):
        d = self.d
        d["parentCtx"] = parent
        d["invokingState"] = -1 if invokingStateNumber is None else invokingStateNumber
        d["children"] = None
        d["start"] = None
        d["stop"] = None
        d["exception"] = None

    def kids(self):
        return self.d["children"] or []

    def get_child(self, i, ttype=None):
        ch = kids(self)
        if ttype is None:
            if self.d["children"] is None:
                raise PyExc(TypeError("object of type 'NoneType' has no len()"))
            return ch[i] if len(ch) > i else None
        for c in ch:
            if ttype in c.cls.mro:
                if i == 0:
                    return c
                i -= 1
        return None

    def get_token(self, ttype, i):
        for c in kids(self):
            if "symbol" in c.d and c.d["symbol"].d["type"] == ttype:
                if i == 0:
                    return c
                i -= 1
        return None

    def add_child(self, c):
        if self.d["children"] is None:
            self.d["children"] = []
        self.d["children"].append(c)
        return c

    def depth(self):
        n = 0
        p = self
        while p is not None:
            p = p.d["parentCtx"]
            n += 1
        return n

    define(PRC, __init__=prc_init, getChild=get_child, getToken=get_token, addChild=add_child,
           getTokens=lambda s, t: [c for c in kids(s) if "symbol" in c.d and c.d["symbol"].d["type"] == t],
           getTypedRuleContext=lambda s, t, i: get_child(s, i, t),
           getTypedRuleContexts=lambda s, t: [c for c in kids(s) if t in c.cls.mro],
           getChildCount=lambda s: len(kids(s)), getChildren=lambda s, p=None: iter([c for c in kids(s) if p is None or I.truth(I.call(p, [c], {}))]), getText=text_of,
           getRuleContext=lambda s: s, getPayload=lambda s: s, getParent=lambda s: s.d["parentCtx"], isEmpty=lambda s: s.d["invokingState"] == -1,
           accept=lambda s, v: I.call_method(v, "visitChildren", [s]), enterRule=lambda s, l: None, exitRule=lambda s, l: None, depth=depth,
           getSourceInterval=lambda s: (s.d["start"].d["tokenIndex"], s.d["stop"].d["tokenIndex"]), getRuleIndex=lambda s: -1,
           getAltNumber=lambda s: 0, setAltNumber=lambda s, n: None)

    Visitor = cls("ParseTreeVisitor")

    def visit_children(self, node):
        r = I.call_method(self, "defaultResult", [])
        for c in list(kids(node)):
            if not I.truth(I.call_method(self, "shouldVisitNextChild", [node, r])):
                return r
            x = I.call_method(c, "accept", [self])
            r = I.call_method(self, "aggregateResult", [r, x])
        return r

    define(Visitor, visit=lambda s, t: I.call_method(t, "accept", [s]), visitChildren=visit_children, visitTerminal=lambda s, n: I.call_method(s, "defaultResult", []),
           visitErrorNode=lambda s, n: I.call_method(s, "defaultResult", []), defaultResult=lambda s: None, aggregateResult=lambda s, a, n: n,
           shouldVisitNextChild=lambda s, n, r: True)

    Listener = cls("ParseTreeListener", visitTerminal=lambda s, n: None, visitErrorNode=lambda s, n: None, enterEveryRule=lambda s, c: None, exitEveryRule=lambda s, c: None)
    Walker = cls("ParseTreeWalker")

    def walk(self, listener, t):
        if "symbol" in t.d:
            I.call_method(listener, "visitErrorNode" if ErrorNode in t.cls.mro else "visitTerminal", [t])
            return None
        I.call_method(listener, "enterEveryRule", [t])
        I.call_method(t, "enterRule", [listener])
        for c in list(kids(t)):
            walk(self, listener, c)
        I.call_method(t, "exitRule", [listener])
        I.call_method(listener, "exitEveryRule", [t])
        return None

    define(Walker, walk=walk)
    Walker.ns["DEFAULT"] = Obj(Walker)

    ErrorListener = cls("ErrorListener", [], "antlr4.error.ErrorListener")
    for nm in ("syntaxError", "reportAmbiguity", "reportAttemptingFullContext", "reportContextSensitivity"):
        ErrorListener.ns[nm] = Native(lambda self, *a: None, nm)
    ConsoleErrorListener = cls("ConsoleErrorListener", [ErrorListener])

    RecEx = Cls("RecognitionException", [Exception], {}, "antlr4", "RecognitionException")
    NoViable = Cls("NoViableAltException", [RecEx], {}, "antlr4", "NoViableAltException")
    define(RecEx, __init__=lambda self, *a, **k: self.d.update(args=(), recognizer=a[0] if a else None))

    InputStream = cls("InputStream")

    def is_init(self, data):
        if not isinstance(data, (str, AStr)):
            raise PyExc(TypeError("InputStream needs text"))
        self.d["strdata"] = data
        self.d["name"] = "<empty>"

    def is_get_text(self, start, stop):
        conc, spans = split_source(self.d["strdata"])
        if not isinstance(start, int) or not isinstance(stop, int):
            raise Undecided("InputStream.getText with unknown places")
        if stop >= len(conc):
            stop = len(conc) - 1
        return slice_text(conc, spans, start, stop + 1)

    define(InputStream, __init__=is_init, __str__=lambda s: s.d["strdata"], getText=is_get_text)
    InputStream.ns["size"] = Prop(Native(lambda s: len(split_source(s.d["strdata"])[0])))

    Recognizer = cls("Recognizer", checkVersion=lambda s, v: None, addErrorListener=lambda s, l: s.d["_listeners"].append(l),
                     removeErrorListener=lambda s, l: s.d["_listeners"].remove(l), removeErrorListeners=lambda s: s.d["_listeners"].clear())
    Lexer = cls("Lexer", [Recognizer])
    TokenSource = cls("TokenSource")

    def lx_init(self, input=None, output=None):
        self.d["_input"] = input
        self.d["_listeners"] = []
        self.d["_toks"] = None

    def lex_all(self):
        if self.d["_toks"] is not None:
            return self.d["_toks"]
        atn = I.getattr(self, "atn")
        conc, spans = split_source(self.d["_input"].d["strdata"])
        toks = []
        line, col, at = 1, 0, 0

        def adv(to):
            nonlocal line, col, at
            seg = conc[at:to]
            nl = seg.count("\n")
            if nl:
                line += nl
                col = len(seg) - seg.rfind("\n") - 1
            else:
                col += len(seg)
            at = to

        def mk(ty, text, a, b):
            t = Obj(Token)
            t.d.update(type=ty, text=text, line=line, column=col, start=a, stop=b - 1, tokenIndex=len(toks), channel=0, source=(self, self.d["_input"]))
            toks.append(t)

        for rule, a, b in atn.tokens(conc):
            adv(a)
            if rule is None:
                self.d.setdefault("_lexerr", []).append((line, col))
                continue
            acts = atn.rule_actions.get(rule, ())
            ty = atn.rule_tok[rule]
            drop = False
            for k, d1, d2 in acts:
                if k == 6 or (k == 0 and d1 != 0):
                    drop = True
                elif k == 7:
                    ty = d1
                elif k == 0:
                    pass
                else:
                    raise Undecided("lexer action")
            if not drop:
                mk(ty, slice_text(conc, spans, a, b), a, b)
        adv(len(conc))
        mk(-1, "<EOF>", len(conc), len(conc))
        self.d["_toks"] = toks
        return toks

    def next_token(self):
        toks = lex_all(self)
        i = self.d.get("_i", 0)
        self.d["_i"] = min(i + 1, len(toks) - 1)
        return toks[i]

    define(Lexer, __init__=lx_init, nextToken=next_token, getAllTokens=lambda s: lex_all(s)[:-1])

    Stream = cls("CommonTokenStream")

    def cs_init(self, lexer, channel=0):
        self.d["tokenSource"] = lexer
        self.d["_p"] = 0

    def toks_of(self):
        return lex_all(self.d["tokenSource"])

    def LT(self, k):
        t = toks_of(self)
        p = self.d["_p"]
        if k < 0:
            return t[p + k] if p + k >= 0 else None
        return t[min(p + k - 1, len(t) - 1)]

    def cs_text(self, start=None, stop=None):
        t = toks_of(self)
        if isinstance(start, Obj):
            start = start.d["tokenIndex"]
        if isinstance(stop, Obj):
            stop = stop.d["tokenIndex"]
        start = 0 if start is None else start
        stop = len(t) - 1 if stop is None else min(stop, len(t) - 1)
        if start < 0 or stop < 0 or stop < start:
            return ""
        r = []
        for x in t[start : stop + 1]:
            if x.d["type"] == -1:
                break
            r.extend(parts_of(x.d["text"]))
        return mkstr(r)

    define(Stream, __init__=cs_init, LT=LT, LA=lambda s, k: LT(s, k).d["type"], fill=lambda s: None, getText=cs_text, get=lambda s, i: toks_of(s)[i])
    Stream.ns["tokens"] = Prop(Native(toks_of))

    Parser = cls("Parser", [Recognizer])
    EH = cls("DefaultErrorStrategy")

    def pa_init(self, input, output=None):
        self.d.update(_input=input, _ctx=None, state=-1, _listeners=[Obj(ConsoleErrorListener)], buildParseTrees=True, _syntaxErrors=0, _fail=False, _interp=None)
        eh = Obj(EH)
        eh.d["parser"] = self
        self.d["_errHandler"] = eh
        lex_all(input.d["tokenSource"])
        if input.d["tokenSource"].d.get("_lexerr"):
            pass

    def enter_rule(self, ctx, state, idx):
        d = self.d
        d["state"] = state
        d["_ctx"] = ctx
        ctx.d["start"] = LT(d["_input"], 1)
        p = ctx.d["parentCtx"]
        if p is not None:
            add_child(p, ctx)
        return None

    def exit_rule(self):
        d = self.d
        c = d["_ctx"]
        c.d["stop"] = LT(d["_input"], -1)
        d["state"] = c.d["invokingState"]
        d["_ctx"] = c.d["parentCtx"]
        return None

    def enter_outer(self, ctx, alt):
        c = self.d["_ctx"]
        if c is not ctx:
            p = c.d["parentCtx"]
            if p is not None:
                p.d["children"][-1] = ctx
        self.d["_ctx"] = ctx
        return None

    def consume(self):
        st = self.d["_input"]
        t = LT(st, 1)
        if t.d["type"] != -1:
            st.d["_p"] += 1
        n = Obj(TerminalNodeImpl)
        n.d["symbol"] = t
        n.d["parentCtx"] = self.d["_ctx"]
        add_child(self.d["_ctx"], n)
        return t

    def fail(self, e):
        if self.d["_fail"]:
            return None
        self.d["_fail"] = True
        self.d["_syntaxErrors"] += 1
        t = LT(self.d["_input"], 1)
        for l in list(self.d["_listeners"]):
            I.call_method(l, "syntaxError", [self, t, t.d["line"], t.d["column"], mkstr(["mismatched input '", *parts_of(t.d["text"]), "'"]), e])
        # nothing after the first error matters (a partial tree): jump to the end of the input
        st = self.d["_input"]
        st.d["_p"] = len(toks_of(st)) - 1
        return None

    def match(self, ttype):
        t = LT(self.d["_input"], 1)
        if self.d["_fail"]:
            return t
        if t.d["type"] == ttype:
            return consume(self)
        e = Obj(RecEx)
        e.d["args"] = ()
        fail(self, e)
        return t

    define(Parser, __init__=pa_init, enterRule=enter_rule, exitRule=exit_rule, enterOuterAlt=enter_outer, consume=consume, match=match,
           getCurrentToken=lambda s: LT(s.d["_input"], 1), getNumberOfSyntaxErrors=lambda s: s.d["_syntaxErrors"], getTokenStream=lambda s: s.d["_input"],
           notifyErrorListeners=lambda s, *a: None)

    def rec_inline(self, p):
        e = Obj(RecEx)
        e.d["args"] = ()
        fail(p, e)
        return LT(p.d["_input"], 1)

    define(EH, sync=lambda s, p: None, reportError=lambda s, p, e: fail(p, e), recover=lambda s, p, e: None, reportMatch=lambda s, p: None, recoverInline=rec_inline)

    ParserSim = cls("ParserATNSimulator")

    def ps_init(self, parser, atn, dfas, cache):
        self.d["parser"] = parser
        self.d["atn"] = atn

    def predict(self, input, decision, ctx):
        p = self.d["parser"]
        if p.d["_fail"]:
            return 0
        atn = self.d["atn"]
        chain = []
        c = ctx
        while c is not None:
            inv = c.d["invokingState"]
            if inv >= 0:
                chain.append(atn.edges[inv][0][2])
            c = c.d["parentCtx"]
        stack = ()
        for f in reversed(chain):
            stack = (f, stack)
        r = atn.predict(decision, lambda i: LT(input, i).d["type"], stack)
        if r == 0:
            e = Obj(NoViable)
            e.d["args"] = ()
            raise PyExc(e)
        return r

    define(ParserSim, __init__=ps_init, adaptivePredict=predict)
    LexerSim = cls("LexerATNSimulator", __init__=lambda self, *a: None)
    PCC = cls("PredictionContextCache")
    DFA = cls("DFA", __init__=lambda self, *a: None)
    ATNc = cls("ATN")
    ATNc.ns["INVALID_ALT_NUMBER"] = 0
    Deser = cls("ATNDeserializer")

    def deser(self, data):
        k = tuple(data)
        a = _ATN.get(k)
        if a is None:
            a = _ATN[k] = Atn(k)
        return a

    define(Deser, deserialize=deser)
    I.host_attrs[Atn] = {"decisionToState"}

    names = {
        "Token": Token, "ParseTree": ParseTree, "RuleNode": RuleNode, "TerminalNode": TerminalNode, "ErrorNode": ErrorNode, "RuleContext": RuleContext,
        "ParserRuleContext": PRC, "ParseTreeVisitor": Visitor, "ParseTreeListener": Listener, "ParseTreeWalker": Walker, "RecognitionException": RecEx,
        "NoViableAltException": NoViable, "InputStream": InputStream, "CommonTokenStream": Stream, "TokenStream": Stream, "Lexer": Lexer, "Parser": Parser,
        "ParserATNSimulator": ParserSim, "LexerATNSimulator": LexerSim, "PredictionContextCache": PCC, "DFA": DFA, "ATN": ATNc, "ATNDeserializer": Deser,
    }
    I.antlr = names
    for c in list(names.values()) + [TerminalNodeImpl, ErrorNodeImpl]:
        if isinstance(c, Cls):
            c.native_model = True
    I.unmodelled = unmodelled
    I.native_modules["antlr4"] = lambda I: dict(names)
    I.native_modules["antlr4.error"] = lambda I: {}
    I.native_modules["antlr4.error.ErrorListener"] = lambda I: {"ErrorListener": ErrorListener, "ConsoleErrorListener": ConsoleErrorListener}
    I.native_modules["antlr4.error.Errors"] = lambda I: {"RecognitionException": RecEx, "NoViableAltException": NoViable}
    I.native_modules["antlr4.tree"] = lambda I: {}
    I.native_modules["antlr4.tree.Tree"] = lambda I: {"ParseTreeVisitor": Visitor, "ParseTreeListener": Listener, "ParseTreeWalker": Walker, "TerminalNode": TerminalNode, "TerminalNodeImpl": TerminalNodeImpl, "ErrorNode": ErrorNode}
    I.native_modules["antlr4.Token"] = lambda I: {"Token": Token}
