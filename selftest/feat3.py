from __future__ import annotations
from antlr4 import InputStream, CommonTokenStream, ParseTreeWalker, Token, TerminalNode, ParserRuleContext
import antlr4
from explorerscript.antlr.ExplorerScriptLexer import ExplorerScriptLexer
from explorerscript.antlr.ExplorerScriptParser import ExplorerScriptParser
from explorerscript.antlr.ExplorerScriptVisitor import ExplorerScriptVisitor

SRC = """import "a.exps";
macro m($x, $y) { o($x); }
def 0 { // c
  o(1, "two", Position<'m', 1, 2.5>, {english='a', german="b"}); @lab; jump @lab;
  if not ($A == 3 || debug) { p(); } elseif (edit) { q(); } else { ~m(1, 2); }
  switch (random(5)) { case 1: a(); break; case > 2: default: b(); }
  with (actor 3) { w(); }
  while ($B[3]) { continue; }
  $V += 5; $W[2] = 1; clear $W; hold;
}
def 1 for actor X { alias previous; }
coro C { return; }
"""

def mk():
    lx = ExplorerScriptLexer(InputStream(SRC)); st = CommonTokenStream(lx); ps = ExplorerScriptParser(st)
    t = ps.start()
    out = []
    def walk(n):
        out.append(n)
        for c in (n.children or [] if isinstance(n, ParserRuleContext) else []): walk(c)
    walk(t)
    return lx, st, ps, t, out

class V(ExplorerScriptVisitor):
    def __init__(self): self.l = []
    def visitOperation(self, ctx): self.l.append(ctx.getText()); return self.visitChildren(ctx)
    def defaultResult(self): return 0
    def aggregateResult(self, a, b): return (a or 0) + (b or 0) + 1
    def visitTerminal(self, node): return 10

def t_tree():
    lx, st, ps, t, out = mk(); R = [x for x in out if isinstance(x, ParserRuleContext)]; T = [x for x in out if isinstance(x, TerminalNode)]
    return ([type(x).__name__ for x in out], [x.getText() for x in out], [(x.start.line, x.start.column, x.stop.line, x.stop.column) for x in R], [x.getChildCount() for x in R], [x.getRuleIndex() for x in R], [x.symbol.type for x in T], [(x.symbol.line, x.symbol.column, x.symbol.text, x.symbol.start, x.symbol.stop, x.symbol.tokenIndex, x.symbol.channel) for x in T], [str(x) for x in T], [x.getSymbol().text for x in T], [x.parentCtx is None for x in R], [x.getParent() is x.parentCtx for x in T], [x.depth() for x in R] if hasattr(R[0], "depth") else 1, [x.getSourceInterval() for x in R], t.parser is ps, [len(x.children) for x in R if x.children], [x.getChild(0).getText() for x in R if x.getChildCount()], [x.isEmpty() for x in R], [type(x.parentCtx).__name__ for x in T], [type(x.getPayload()).__name__ for x in T], [x.exception is None for x in R], ps.getNumberOfSyntaxErrors(), [x.text for x in st.tokens], [x.type == Token.EOF for x in st.tokens], [x.getTokenIndex() if hasattr(x, "getTokenIndex") else 1 for x in st.tokens], [ps.ruleNames[x.getRuleIndex()] for x in R], [ps.symbolicNames[x.symbol.type] for x in T if x.symbol.type > 0], t.getText()[:20], [x.start.getInputStream() is not None for x in R][:3], [x.toStringTree(recog=ps) for x in R][:3])
def t_typed():
    lx, st, ps, t, out = mk(); O = [x for x in out if isinstance(x, ExplorerScriptParser.OperationContext)]; A = [x for x in out if isinstance(x, ExplorerScriptParser.ArglistContext)]; P = ExplorerScriptParser
    return ([o.IDENTIFIER() is not None for o in O], [o.getToken(P.IDENTIFIER, 0) is not None for o in O], [len(a.getTypedRuleContexts(P.Pos_argumentContext)) for a in A], [a.getTypedRuleContext(P.Pos_argumentContext, 0).getText() for a in A], [len(a.pos_argument()) for a in A], [a.pos_argument(1) is None for a in A], [len(a.getTokens(P.COMMA)) for a in A] if hasattr(P, "COMMA") else 1, [o.arglist() is None for o in O], [type(o.parentCtx).__name__ for o in O], [o.children[0].getText() for o in O], [o.getChild(-1) is None for o in O], [o.getChild(99) is None for o in O], [list(o.getChildren())[0] is o.getChild(0) for o in O], [o.getChild(0, TerminalNode) is None for o in O], [o.stop.text for o in O], [o.start.tokenIndex for o in O], [o.start.type for o in O], isinstance(t, ParserRuleContext), isinstance(t, P.StartContext), [repr(o.start.text) for o in O])
def t_visit():
    lx, st, ps, t, out = mk(); v = V(); r = v.visit(t)
    return r, v.l, t.accept(V()), V().visitChildren(t)
