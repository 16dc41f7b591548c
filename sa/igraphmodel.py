"""Model of the part of python-igraph the repository can reasonably use (directed multigraphs, indices, attributes).

Vertices and edges are *references by index* like in igraph: deleting compacts the indices and an old reference then
denotes whatever has its index now.  Orders (incidence lists, BFS, paths) follow igraph.
"""
from __future__ import annotations

import ast

from collections import deque

from .engine import *
from .values import *

OUT, IN, ALL = 1, 2, 3


class IGraphError(Exception):
    pass


class Graph:
    serial = 0

    def __init__(self, n=0, edges=None, directed=False, *a, **k):
        if edges or a or k:
            raise Undecided("igraph constructor")
        Graph.serial += 1
        self.gid = Graph.serial
        self.directed = directed
        self.nv = n
        self.vattrs = {}  # name -> list
        self.eattrs = {}
        self.ends = []  # (s, t)

    # -- helpers
    def _v(self, x):
        if isinstance(x, Vertex):
            return x.idx
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            if not 0 <= x < self.nv:
                raise PyExc(ValueError("vertex IDs must be positive") if x < 0 else IGraphError("Invalid vertex ID"))
            return x
        if isinstance(x, (str, AStr)):
            names = self.vattrs.get("name")
            if names is not None:
                for i, nm in enumerate(names):
                    if nm is not None and Ctl.interp.truth(Ctl.interp.eq(nm, x)):
                        return i
            raise PyExc(ValueError(f"no such vertex: {x!r}"))
        raise PyExc(TypeError("invalid vertex"))

    def _e(self, x):
        if isinstance(x, Edge):
            return x.idx
        if isinstance(x, int):
            return x
        if isinstance(x, tuple) and len(x) == 2:
            return self.get_eid(*x)
        raise PyExc(TypeError("invalid edge"))

    def out_ids(self, v):
        return sorted((i for i, (s, t) in enumerate(self.ends) if s == v), key=lambda i: (self.ends[i][1], -i))

    def in_ids(self, v):
        return sorted((i for i, (s, t) in enumerate(self.ends) if t == v), key=lambda i: (self.ends[i][0], -i))

    def adj(self, v, mode=OUT):
        r = set()
        if mode & OUT:
            r |= {t for s, t in self.ends if s == v}
        if mode & IN:
            r |= {s for s, t in self.ends if t == v}
        return sorted(r)

    # -- API
    def add_vertex(self, name=None, **attrs):
        if name is not None:
            attrs["name"] = name
        for k in attrs:
            if k not in self.vattrs:
                self.vattrs[k] = [None] * self.nv
        for k, col in self.vattrs.items():
            col.append(attrs.get(k))
        self.nv += 1
        return Vertex(self, self.nv - 1)

    def add_vertices(self, n, attributes=None):
        if isinstance(n, int):
            names = [None] * n
        elif isinstance(n, (str, AStr)):
            names = [n]
        else:
            names = list(Ctl.interp.iterate(n))
        cols = {k: list(Ctl.interp.iterate(v)) for k, v in (attributes or {}).items()}
        if any(len(v) != len(names) for v in cols.values()):
            raise Undecided("add_vertices: lengths")
        for i, x in enumerate(names):
            self.add_vertex(x, **{k: v[i] for k, v in cols.items()})

    def add_edge(self, source, target, **attrs):
        s, t = self._v(source), self._v(target)
        for x in (s, t):
            if not 0 <= x < self.nv:
                raise PyExc(IGraphError("Out-of-range vertex IDs when adding edges."))
        for k in attrs:
            if k not in self.eattrs:
                self.eattrs[k] = [None] * len(self.ends)
        for k, col in self.eattrs.items():
            col.append(attrs.get(k))
        self.ends.append((s, t))
        return Edge(self, len(self.ends) - 1)

    def add_edges(self, es, attributes=None):
        es = list(Ctl.interp.iterate(es))
        cols = {k: list(Ctl.interp.iterate(v)) for k, v in (attributes or {}).items()}
        if any(len(v) != len(es) for v in cols.values()):
            raise Undecided("add_edges: lengths")
        for i, e in enumerate(es):
            s, t = Ctl.interp.iterate(e)
            self.add_edge(s, t, **{k: v[i] for k, v in cols.items()})

    def _keep_edges(self, keep):
        self.ends = [self.ends[i] for i in keep]
        for k in self.eattrs:
            col = self.eattrs[k]
            self.eattrs[k] = [col[i] for i in keep]

    def _ids(self, x, conv, n):
        if isinstance(x, (int, Vertex, Edge, str, AStr)):
            xs = [x]
        elif isinstance(x, _Seq):
            xs = list(x)
        else:
            xs = list(Ctl.interp.iterate(x))
        r = set()
        for y in xs:
            i = conv(y)
            if not 0 <= i < n:
                raise PyExc(IGraphError("Invalid ID"))
            r.add(i)
        return r

    def delete_edges(self, es=None):
        dead = self._ids(es, self._e, len(self.ends))
        self._keep_edges([i for i in range(len(self.ends)) if i not in dead])

    def delete_vertices(self, vs=None):
        dead = self._ids(vs, self._v, self.nv)
        if not dead:
            return
        self._keep_edges([i for i, (s, t) in enumerate(self.ends) if s not in dead and t not in dead])
        keep = [i for i in range(self.nv) if i not in dead]
        new = {o: n for n, o in enumerate(keep)}
        self.ends = [(new[s], new[t]) for s, t in self.ends]
        for k in self.vattrs:
            col = self.vattrs[k]
            self.vattrs[k] = [col[i] for i in keep]
        self.nv = len(keep)

    @property
    def vs(self):
        return VSeq(self)

    @property
    def es(self):
        return ESeq(self)

    def vcount(self):
        return self.nv

    def ecount(self):
        return len(self.ends)

    def is_directed(self):
        return self.directed

    def incident(self, v, mode=OUT):
        v = self._v(v)
        mode = _mode(mode)
        if mode == OUT:
            return self.out_ids(v)
        if mode == IN:
            return self.in_ids(v)
        raise Undecided("incident(ALL)")

    def neighbors(self, v, mode=ALL):
        v = self._v(v)
        mode = _mode(mode)
        r = []
        if mode & OUT:
            r += [self.ends[i][1] for i in self.out_ids(v)]
        if mode & IN:
            r += [self.ends[i][0] for i in self.in_ids(v)]
        return sorted(r)

    def successors(self, v):
        return [self.ends[i][1] for i in self.out_ids(self._v(v))]

    def predecessors(self, v):
        return [self.ends[i][0] for i in self.in_ids(self._v(v))]

    def degree(self, v=None, mode=ALL):
        if v is None or isinstance(v, (list, tuple, range, _Seq)):
            return [self.degree(x, mode) for x in (range(self.nv) if v is None else list(v))]
        v = self._v(v)
        mode = _mode(mode)
        return (len(self.out_ids(v)) if mode & OUT else 0) + (len(self.in_ids(v)) if mode & IN else 0)

    def indegree(self, v=None):
        return self.degree(v, IN)

    def outdegree(self, v=None):
        return self.degree(v, OUT)

    def bfsiter(self, vid, mode=OUT, advanced=False):
        if advanced:
            raise Undecided("bfsiter(advanced)")
        v = self._v(vid)
        if not 0 <= v < self.nv:
            raise PyExc(ValueError("vertex ID out of range"))
        mode = _mode(mode)

        def it():
            seen = {v}
            q = deque([v])
            while q:
                x = q.popleft()
                for y in self.adj(x, mode):
                    if y not in seen:
                        seen.add(y)
                        q.append(y)
                yield Vertex(self, x)

        return it()

    def get_shortest_paths(self, v, to=None, weights=None, mode=OUT, output="vpath", *a):
        if weights is not None or output != "vpath" or a:
            raise Undecided("get_shortest_paths options")
        v = self._v(v)
        if not 0 <= v < self.nv:
            raise PyExc(IGraphError("Invalid vertex ID"))
        mode = _mode(mode)
        par = {v: None}
        q = deque([v])
        while q:
            x = q.popleft()
            for y in self.adj(x, mode):
                if y not in par:
                    par[y] = x
                    q.append(y)
        if to is None:
            ts = list(range(self.nv))
        elif isinstance(to, (int, Vertex, str, AStr)):
            ts = [self._v(to)]
        else:
            ts = [self._v(t) for t in Ctl.interp.iterate(to)]
        out = []
        for t in ts:
            p = []
            if t in par:
                x = t
                while x is not None:
                    p.append(x)
                    x = par[x]
                p.reverse()
            out.append(p)
        return out

    def get_shortest_path(self, v, to, weights=None, mode=OUT):
        return self.get_shortest_paths(v, to, weights, mode)[0]

    def get_all_simple_paths(self, v, to=None, minlen=0, maxlen=-1, mode=OUT, **k):
        cutoff = k.pop("cutoff", maxlen)
        if k:
            raise Undecided("get_all_simple_paths options")
        v = self._v(v)
        mode = _mode(mode)
        tset = None
        if to is not None and not (isinstance(to, int) and to == -1):
            if isinstance(to, (int, Vertex, str, AStr)):
                tset = {self._v(to)}
            else:
                tset = {self._v(t) for t in Ctl.interp.iterate(to)}
        out = []

        def dfs(path, on):
            if 0 <= cutoff < len(path):
                return
            for y in self.adj(path[-1], mode):
                if y in on:
                    continue
                path.append(y)
                on.add(y)
                if (tset is None or y in tset) and len(path) - 1 >= minlen:
                    out.append(list(path))
                    if len(out) > 20000:
                        raise Limit("too many simple paths")
                dfs(path, on)
                on.discard(y)
                path.pop()

        dfs([v], {v})
        return out

    def get_eid(self, v1, v2, directed=True, error=True):
        a, b = self._v(v1), self._v(v2)
        c = [i for i, e in enumerate(self.ends) if e == (a, b)]
        if not c and not directed:
            c = [i for i, e in enumerate(self.ends) if e == (b, a)]
        if c:
            return max(c)
        if error:
            raise PyExc(IGraphError("no such edge"))
        return -1

    def are_adjacent(self, v1, v2):
        return (self._v(v1), self._v(v2)) in self.ends

    are_connected = are_adjacent

    def get_edgelist(self):
        return list(self.ends)

    def get_adjlist(self, mode=OUT):
        return [self.neighbors(i, mode) for i in range(self.nv)]

    def vertex_attributes(self):
        return list(self.vattrs)

    def edge_attributes(self):
        return list(self.eattrs)

    def has_path(self, a, b):
        raise Undecided("igraph method")

    def topological_sorting(self, mode=OUT):
        mode = _mode(mode)
        deg = [0] * self.nv
        ends = self.ends if mode == OUT else [(t, s) for s, t in self.ends]
        for s, t in ends:
            if s != t:
                deg[t] += 1
            else:
                raise PyExc(IGraphError("not a DAG"))
        q = deque(i for i in range(self.nv) if deg[i] == 0)
        out = []
        while q:
            x = q.popleft()
            out.append(x)
            for s, t in sorted(e for e in ends if e[0] == x):
                deg[t] -= 1
                if deg[t] == 0:
                    q.append(t)
        if len(out) != self.nv:
            raise PyExc(IGraphError("The graph has cycles; topological sorting is only possible in acyclic graphs"))
        return out

    def is_dag(self):
        try:
            self.topological_sorting()
            return True
        except PyExc:
            return False

    def subcomponent(self, v, mode=ALL):
        mode = _mode(mode)
        v = self._v(v)
        seen = [v]
        for x in seen:
            for y in self.adj(x, mode):
                if y not in seen:
                    seen.append(y)
        return seen

    def copy(self):
        g = Graph(directed=self.directed)
        g.nv = self.nv
        g.ends = list(self.ends)
        g.vattrs = {k: list(v) for k, v in self.vattrs.items()}
        g.eattrs = {k: list(v) for k, v in self.eattrs.items()}
        return g


def _mode(m):
    if isinstance(m, int):
        return m
    return {"out": OUT, "in": IN, "all": ALL}[str(m).lower()]


class Vertex:
    __slots__ = ("graph", "idx")

    def __init__(self, g, i):
        self.graph = g
        self.idx = i

    def _chk(self):
        if not 0 <= self.idx < self.graph.nv:
            raise PyExc(ValueError("Vertex object refers to a nonexistent vertex"))

    @property
    def index(self):
        return self.idx

    def __getitem__(self, k):
        self._chk()
        if k not in self.graph.vattrs:
            raise PyExc(KeyError("Attribute does not exist"))
        return self.graph.vattrs[k][self.idx]

    def __setitem__(self, k, v):
        self._chk()
        if k not in self.graph.vattrs:
            self.graph.vattrs[k] = [None] * self.graph.nv
        self.graph.vattrs[k][self.idx] = v

    def attributes(self):
        self._chk()
        return {k: c[self.idx] for k, c in self.graph.vattrs.items()}

    def attribute_names(self):
        return list(self.graph.vattrs)

    def update_attributes(self, *a, **k):
        for d in a:
            for x, y in d.items():
                self[x] = y
        for x, y in k.items():
            self[x] = y

    def out_edges(self):
        self._chk()
        return [Edge(self.graph, i) for i in self.graph.out_ids(self.idx)]

    def in_edges(self):
        self._chk()
        return [Edge(self.graph, i) for i in self.graph.in_ids(self.idx)]

    def successors(self):
        return [Vertex(self.graph, i) for i in self.graph.successors(self.idx)]

    def predecessors(self):
        return [Vertex(self.graph, i) for i in self.graph.predecessors(self.idx)]

    def neighbors(self, mode=ALL):
        return [Vertex(self.graph, i) for i in self.graph.neighbors(self.idx, mode)]

    def degree(self, mode=ALL):
        return self.graph.degree(self.idx, mode)

    def indegree(self):
        return self.graph.degree(self.idx, IN)

    def outdegree(self):
        return self.graph.degree(self.idx, OUT)

    def incident(self, mode=ALL):
        return [Edge(self.graph, i) for i in self.graph.incident(self.idx, mode)]

    def __eq__(self, o):
        return isinstance(o, Vertex) and o.graph is self.graph and o.idx == self.idx

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.graph.gid, self.idx))

    def __lt__(self, o):
        return self.idx < o.idx

    def __repr__(self):
        return f"igraph.Vertex({self.idx})"


class Edge:
    __slots__ = ("graph", "idx")

    def __init__(self, g, i):
        self.graph = g
        self.idx = i

    def _chk(self):
        if not 0 <= self.idx < len(self.graph.ends):
            raise PyExc(ValueError("Edge object refers to a nonexistent edge"))

    @property
    def index(self):
        return self.idx

    @property
    def source(self):
        self._chk()
        return self.graph.ends[self.idx][0]

    @property
    def target(self):
        self._chk()
        return self.graph.ends[self.idx][1]

    @property
    def tuple(self):
        self._chk()
        return self.graph.ends[self.idx]

    @property
    def source_vertex(self):
        return Vertex(self.graph, self.source)

    @property
    def target_vertex(self):
        return Vertex(self.graph, self.target)

    @property
    def vertex_tuple(self):
        return (self.source_vertex, self.target_vertex)

    def is_loop(self):
        return self.source == self.target

    def __getitem__(self, k):
        self._chk()
        if k not in self.graph.eattrs:
            raise PyExc(KeyError("Attribute does not exist"))
        return self.graph.eattrs[k][self.idx]

    def __setitem__(self, k, v):
        self._chk()
        if k not in self.graph.eattrs:
            self.graph.eattrs[k] = [None] * len(self.graph.ends)
        self.graph.eattrs[k][self.idx] = v

    def attributes(self):
        self._chk()
        return {k: c[self.idx] for k, c in self.graph.eattrs.items()}

    def attribute_names(self):
        return list(self.graph.eattrs)

    def update_attributes(self, *a, **k):
        for d in a:
            for x, y in d.items():
                self[x] = y
        for x, y in k.items():
            self[x] = y

    def delete(self):
        self.graph.delete_edges(self.idx)

    def __eq__(self, o):
        return isinstance(o, Edge) and o.graph is self.graph and o.idx == self.idx

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.graph.gid, self.idx, "e"))

    def __repr__(self):
        return f"igraph.Edge({self.idx})"


class _Seq:
    __slots__ = ("g",)

    def __init__(self, g):
        self.g = g

    def __getitem__(self, i):
        if isinstance(i, (str, AStr)):
            return [x[i] for x in self]
        if isinstance(i, (int,)) and not isinstance(i, bool):
            n = len(self)
            if i < 0:
                i += n
            if not 0 <= i < n:
                raise PyExc(IndexError("index out of range"))
            return self.item(self.g, i)
        if isinstance(i, slice):
            return [self.item(self.g, j) for j in range(*i.indices(len(self)))]
        raise PyExc(TypeError("igraph supports string attribute names only"))

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Undecided("sequence attribute assignment")
        xs = list(self)
        if isinstance(v, (list, tuple)):
            if len(v) != len(xs):
                raise Undecided("sequence attribute assignment: lengths")
            for x, y in zip(xs, v):
                x[k] = y
        else:
            for x in xs:
                x[k] = v

    def __iter__(self):
        i = 0
        while i < len(self):
            yield self.item(self.g, i)
            i += 1

    def __contains__(self, x):
        return any(y == x for y in self)

    @property
    def indices(self):
        return list(range(len(self)))


class VSeq(_Seq):
    __slots__ = ()
    item = Vertex

    def __len__(self):
        return self.g.nv

    def find(self, *a, **k):
        if a:
            return Vertex(self.g, self.g._v(a[0]))
        return _find(self, (), k)

    def select(self, *a, **k):
        return _select(self, a, k)


class ESeq(_Seq):
    __slots__ = ()
    item = Edge

    def __len__(self):
        return len(self.g.ends)

    def find(self, *a, **k):
        return _find(self, a, k)

    def select(self, *a, **k):
        return _select(self, a, k)


class Sub(_Seq):
    """A selection of vertices or edges"""

    __slots__ = ("item", "ids")

    def __init__(self, g, item, ids):
        self.g, self.item, self.ids = g, item, list(ids)

    def __len__(self):
        return len(self.ids)

    def __getitem__(self, i):
        if isinstance(i, (str, AStr)):
            return [x[i] for x in self]
        if isinstance(i, slice):
            return Sub(self.g, self.item, self.ids[i])
        if isinstance(i, int) and not isinstance(i, bool):
            if not -len(self.ids) <= i < len(self.ids):
                raise PyExc(IndexError("index out of range"))
            return self.item(self.g, self.ids[i])
        raise PyExc(TypeError("igraph supports string attribute names only"))

    def __iter__(self):
        for i in self.ids:
            yield self.item(self.g, i)

    @property
    def indices(self):
        return list(self.ids)

    def find(self, *a, **k):
        return _find(self, a, k)

    def select(self, *a, **k):
        return _select(self, a, k)


_TESTS = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "gt": ast.Gt, "le": ast.LtE, "ge": ast.GtE, "in": ast.In, "notin": ast.NotIn}


def _select(seq, a, k):
    I = Ctl.interp
    r = list(seq)
    for f in a:
        if f is None:
            r = []
        elif isinstance(f, (Func, Bound, Native)):
            r = [x for x in r if I.truth(I.call(f, [x], {}))]
        elif isinstance(f, int):
            raise Undecided("select(number)")
        else:
            ids = list(I.iterate(f))
            if not all(isinstance(x, int) for x in ids):
                raise Undecided("select(names)")
            r = [r[x] for x in ids]
    for n, v in k.items():
        attr, op = n, ast.Eq
        if "_" in n.strip("_"):
            h, _, t = n.rpartition("_")
            if t in _TESTS and h:
                attr, op = h, _TESTS[t]

        def val(x):
            if attr in ("_outdegree", "_indegree", "_degree"):
                return getattr(x, attr[1:])()
            if attr in ("_source", "_from"):
                return x.source
            if attr in ("_target", "_to"):
                return x.target
            if attr.startswith("_"):
                raise Undecided("select " + attr)
            return x[attr]

        if attr in ("_source", "_from", "_target", "_to") and op in (ast.Eq, ast.NotEq):
            v = seq.g._v(v)
        elif attr in ("_source", "_target") and op in (ast.In, ast.NotIn):
            v = [seq.g._v(x) for x in I.iterate(v)]
        r = [x for x in r if I.truth(I.compare(op, val(x), v))]
    return Sub(seq.g, seq.item, [x.idx for x in r])


def _find(seq, a, k):
    if a and isinstance(a[0], int):
        return seq[a[0]]
    r = _select(seq, a, k)
    if not len(r):
        raise PyExc(ValueError("no such item"))
    return r[0]


def pub(c):
    return {n for n in dir(c) if not n.startswith("_")} - {"nv", "vattrs", "eattrs", "ends", "gid", "serial", "adj", "out_ids", "in_ids", "g", "idx", "item", "ids"}


def install(I):
    for c in (Graph, Vertex, Edge, VSeq, ESeq, Sub):
        I.host_attrs[c] = pub(c)
    I.host_attrs[Graph] |= {"vs", "es"}
    I.host_attrs[Vertex] |= {"graph", "index"}
    I.host_attrs[Edge] |= {"graph", "index"}
    ns = {"Graph": Graph, "Vertex": Vertex, "Edge": Edge, "VertexSeq": VSeq, "EdgeSeq": ESeq, "OUT": OUT, "IN": IN, "ALL": ALL, "InternalError": IGraphError}
    I.native_modules["igraph"] = lambda I: dict(ns)
