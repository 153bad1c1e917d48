"""C31: graphs reduced by forest fire, and measures of graphs."""
import itertools
import math
import os
import random
import sys
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import networkx as nx
import numpy as np

warnings.simplefilter("ignore")
from deepgnn.graph_engine.snark.preprocess.sampler import forest_fire as ff
from deepgnn.graph_engine.snark.preprocess.sampler import metric

c = Check(
    "C31",
    "a case of 'reduce' is a directed graph of 1-70 nodes (sparse, dense, with isolated nodes, separate parts, self loops, parallel "
    "edges, nodes of any name), a number of nodes from one to all of them and seeds. The reduced graph must have exactly that number of nodes, "
    "all nodes and edges of it must be in the original, which must stay as it was, and the same seeds must give the same result. A case of 'measures' is a "
    "graph whose measures are compared with their definition; the estimated clustering with its exact expectation within six standard "
    "errors. Non-trivial: the graph has an edge and, for reduction, fewer nodes than asked can be reached from some node.",
    assumptions=("no more nodes are asked for than the graph has",),
)
NAMES = {"int": lambda i: i, "text": lambda i: f"n{i}", "far": lambda i: i * 10**9 + 7, "pair": lambda i: (i % 3, i)}


@st.composite
def graphs(draw, more=()):
    n = draw(st.one_of(st.integers(1, 14), *more))
    style = draw(st.sampled_from(["sparse", "dense", "parts", "none"]))
    pair = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).map(list)
    hi = {"sparse": n, "dense": 4 * n, "parts": 3 * n, "none": 0}[style]
    edges = draw(st.lists(pair, max_size=hi))
    if style == "parts":
        edges = [[a, b] for a, b in edges if a % 3 == b % 3]
    return {
        "n": n,
        "edges": edges,
        "names": draw(st.sampled_from(sorted(NAMES))),
        "multi": draw(st.booleans()),
        "order": list(draw(st.permutations(range(n)))),
    }


def build(g):
    name = NAMES[g["names"]]
    out = nx.MultiDiGraph() if g["multi"] else nx.DiGraph()
    out.add_nodes_from(name(i) for i in g["order"])
    out.add_edges_from((name(a), name(b)) for a, b in g["edges"])
    return out


@st.composite
def reduce_cases(draw):
    g = draw(graphs([st.integers(15, 70)]))
    return {"graph": g, "size": draw(st.integers(1, g["n"])), "seeds": draw(st.lists(st.integers(0, 2**31), min_size=1, max_size=4))}


class Draws:
    """Counts random draws, so that a search without end is noticed long before the time limit."""

    def __init__(self):
        self.left = 0
        for m, name in ((random, "randint"), (np.random, "geometric")):
            setattr(m, name, self.counting(getattr(m, name)))

    def counting(self, f):
        def draw(*a, **kw):
            self.left -= 1
            require(self.left > 0, "the search for nodes did not end after 300000 draws")
            return f(*a, **kw)

        return draw


draws = Draws()


def reduce_body(case, tmp):
    g = build(case["graph"])
    before = (list(g.nodes()), sorted(map(repr, g.edges())))
    for seed in case["seeds"]:
        outs = []
        for _ in range(2):
            random.seed(seed)
            np.random.seed(seed % 2**32)
            draws.left = 300000
            with sut("reducing the graph"):
                outs.append(ff.forest_fire(g, case["size"]))
        s = outs[0]
        equal(len(s.nodes()), case["size"], "number of nodes of the reduced graph")
        require(set(s.nodes()) <= set(g.nodes()), f"nodes {set(s.nodes()) - set(g.nodes())} are not in the graph")
        bad = [e for e in s.edges() if not g.has_edge(*e)]
        equal(bad, [], "edges that are not in the graph")
        require(s.is_directed(), "the reduced graph has lost directions")
        equal((list(g.nodes()), sorted(map(repr, g.edges()))), before, "the original graph")
        equal(sorted(map(repr, outs[1].edges())), sorted(map(repr, s.edges())), "edges from the same seeds")
        equal(set(outs[1].nodes()), set(s.nodes()), "nodes from the same seeds")
    if case["graph"]["edges"] and any(len(nx.node_connected_component(g.to_undirected(), x)) < case["size"] for x in g.nodes()):
        c.note(case)


@st.composite
def measure_cases(draw):
    g = draw(graphs())
    return {"graph": g, "seed": draw(st.integers(0, 2**31))}


def strong(n, edges):
    """Strongly connected components and distances by definition."""
    inf = 10**6
    d = [[0 if i == j else inf for j in range(n)] for i in range(n)]
    for a, b in edges:
        if a != b:
            d[a][b] = 1
    for k, i, j in itertools.product(range(n), repeat=3):
        d[i][j] = min(d[i][j], d[i][k] + d[k][j])
    comps = {tuple(j for j in range(n) if d[i][j] < inf and d[j][i] < inf) for i in range(n)}
    return comps, d


def measure_body(case, tmp):
    g = build(case["graph"])
    n, edges = case["graph"]["n"], case["graph"]["edges"]
    if not case["graph"]["multi"]:
        edges = [list(e) for e in {tuple(e) for e in edges}]
    with sut("densification"):
        got = metric.densification(g)
    want = math.log(len(edges)) / math.log(n) if n > 1 and edges else 0.0
    require(abs(got - want) < 1e-9, f"densification {got}, expected {want}")
    comps, d = strong(n, edges)
    top = max(map(len, comps))
    with sut("largest component"):
        got = metric.largest_connected_component(g)
    require(abs(got - top / n) < 1e-9, f"share of the largest component {got}, expected {top / n}")
    with sut("diameter"):
        got = metric.diameter(g)
    wants = {max(d[i][j] for i in x for j in x) for x in comps if len(x) == top}
    require(got in wants, f"diameter {got}, expected one of {sorted(wants)}")
    m = np.zeros((n, n))
    for a, b in edges:
        m[a][b] += 1
    if n > 1:
        with sut("largest eigenvalue"):
            got = metric.max_adjacency(g)
        want = max(np.linalg.eigvals(m).real)
        # eigenvalues of defective matrices are known to the n-th root of the precision only
        require(abs(np.real(got) - want) < 0.1, f"largest eigenvalue {got}, expected {want}")
    plain = [e for e in edges if e[0] != e[1]]
    nbrs = {i: set() for i in range(n)}
    for a, b in plain:
        nbrs[a].add(b)
        nbrs[b].add(a)
    if len(plain) == len(edges):
        exact = 0.0
        for i in range(n):
            pairs = list(itertools.combinations(sorted(nbrs[i]), 2))
            exact += sum(b in nbrs[a] for a, b in pairs) / len(pairs) / n if pairs else 0.0
        random.seed(case["seed"])
        trials = 900
        draws.left = 10**7
        with sut("average clustering"):
            got = metric.average_clustering(g, trials)
        err = 6 * math.sqrt(exact * (1 - exact) / trials) + 1e-9
        require(abs(got - exact) <= err, f"average clustering {got}, expected {exact} within {err}")
    if edges:
        c.note(case)


c.campaign("reduce", reduce_cases(), reduce_body, 4000, 40000)
c.campaign("measures", measure_cases(), measure_body, 3000, 30000)

if __name__ == "__main__":
    c.main()
