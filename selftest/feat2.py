from __future__ import annotations
from igraph import Graph, Vertex, Edge, OUT, IN, ALL
import igraph

def mk():
    g = Graph(directed=True)
    g.add_vertices(["a", "b", "c", "d", "e"])
    g.vs["k"] if False else None
    for i, v in enumerate(g.vs): v["k"] = i
    for s, t, l in (("a", "b", 1), ("b", "c", 2), ("c", "a", 3), ("a", "d", 4), ("d", "e", 5), ("c", "d", 6), ("a", "b", 7), ("e", "e", 8)):
        g.add_edge(s, t, l=l)
    return g

def t_q():
    g = mk(); v = g.vs.find("a"); e = g.es[0]
    return ([x["name"] for x in g.vs.select(k_gt=2)], [x.index for x in g.es.select(_source=0)], [x.index for x in g.es.select(_target=v)], [x.index for x in g.es.select(l_in=[1, 5])], g.es.select(l=3)[0].tuple, g.vs.select(lambda v: v["k"] == 1)["name"], len(g.es.select(_from=0, l=4)),
            g.vs.find(name="c").index, g.vs.find(k=3)["name"], [x["l"] for x in v.out_edges()], [x["l"] for x in v.in_edges()], [x["name"] for x in v.successors()], [x["name"] for x in v.predecessors()], [x["name"] for x in v.neighbors(mode="out")], v.degree(), v.indegree(), v.outdegree(), v.degree(mode=OUT), g.incident(0), g.incident(v, mode=IN), g.incident("a", mode="in"), g.neighbors("a", mode=OUT), g.successors(0), g.predecessors("a"), g.get_eid("a", "b"), g.get_eid(1, 0, error=False), g.are_adjacent(0, 1), g.vcount(), g.ecount(), e.source, e.target, e.source_vertex["name"], e.target_vertex["name"], e.tuple, e["l"], e.attributes(), v.attributes(), "l" in e.attributes(), g.es["l"], g.vs["name"], g.get_edgelist(), g.degree(0), g.degree([0, 1]), g.indegree("a"), g.is_directed(), [x.index for x in g.vs], g.vs[-1]["name"], g.vs[0] == v, g.vs[0] is v, v in list(g.vs), g.get_adjlist(), g.vertex_attributes(), g.edge_attributes(), e.is_loop(), g.es[7].is_loop(), g.subcomponent(0, mode="out"), g.subcomponent("d", mode=OUT), g.is_dag(), g.get_shortest_paths(0, 4), g.get_all_simple_paths(0, 4), g.bfs(0)[0] if False else 1, [x.index for x in g.bfsiter(0)], g.vs.indices, g.es.indices, len(g.vs), bool(g.vs), v.index, hash(v) == hash(g.vs[0]), g.vs[1:3]["name"] if False else 1, list(g.vs.select([0, 2])["name"]), g.topological_sorting() if False else 1, g.vs["k"], [v["name"] for v in g.vs(k_lt=2)] if False else 1, sorted(g.neighborhood(0, 1)) if False else 1)
def t_del():
    g = mk(); v = g.vs.find("c"); e4 = g.es.find(l=4)
    g.delete_edges(g.es.select(l_le=2)); a = g.es["l"]
    g.delete_vertices(["b"]); b = g.vs["name"], v.index, g.get_edgelist()
    g.delete_edges([0]); c = g.es["l"]
    g.delete_edges([("a", "d")]) if ("a", "d") and g.are_adjacent(g.vs.find("a").index, g.vs.find("d").index) else None
    d = g.es["l"]
    h = g.copy(); h.add_vertex("zz", k=9); h.add_edges([(0, 1), ("zz", "a")]); h.es[0].update_attributes(l=77)
    h.vs[0]["k"] = 55; h.es[-1]["l"] = 5
    n = h.add_vertex(name="q"); ee = h.add_edge(n, n, l=3)
    del_ = h.delete_vertices(n)
    try: h.vs.find("nope")
    except ValueError: r = "ve"
    try: h.get_eid(0, 0)
    except igraph.InternalError: r2 = "ie"
    try: h.vs[99]
    except IndexError: r3 = "ix"
    try: h.vs[0]["no"]
    except KeyError: r4 = "ke"
    return a, b, c, d, h.vs["name"], h.vs["k"], h.es["l"], g.vs["name"], r, r2, r3, r4, h.get_edgelist(), del_, ee is None, n.index
def t_more():
    g = mk()
    es = g.es.select(_source=0); es2 = list(es)
    g.vs["z"] = [1, 2, 3, 4, 5]; g.es["w"] = 0
    return es["l"], [x["l"] for x in es2], g.vs["z"], g.es["w"], es[0]["w"], len(es), es.indices, [x.tuple for x in g.es[1:3]], g.vs.select(name="a")[0].index, g.vs.find("a")["name"], [x["name"] for x in reversed(list(g.vs))], max(g.vs, key=lambda v: v["k"]).index, {v["name"]: v.index for v in g.vs}, any(x.tuple == (0, 1) for x in g.es), g.vs[0].graph is g, g.es[0].vertex_tuple[0]["name"], g.vs.select(name_in=["a", "d"]).indices, g.vs.select(name_ne="a").indices, g.es.select(_source_in=[0, 1]).indices, g.es.select(l_notin=[1]).indices, g.incident(0, mode=ALL)
