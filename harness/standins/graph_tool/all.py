"""Stand-in for the part of graph_tool.all that switss uses, after graph-tool's documentation."""
import collections
import numpy as np

_DT = {"bool": np.uint8, "uint8_t": np.uint8, "int16_t": np.int16, "short": np.int16, "int32_t": np.int32, "int": np.int32, "int64_t": np.int64, "long": np.int64, "double": np.float64, "float": np.float64}
_UNREACHED = 2147483647


class Vertex(int):
    """a vertex descriptor"""

    def __new__(cls, g, i):
        v = int.__new__(cls, i)
        v._g = g
        return v

    def _nb(self, f):
        return (Vertex(self._g, int(x)) for x in f(int(self)))

    def out_neighbors(self):
        return self._nb(self._g.get_out_neighbors)

    def in_neighbors(self):
        return self._nb(self._g.get_in_neighbors)

    out_neighbours, in_neighbours = out_neighbors, in_neighbors

    def out_degree(self):
        return len(self._g.get_out_neighbors(int(self)))

    def in_degree(self):
        return len(self._g.get_in_neighbors(int(self)))

    def out_edges(self):
        return (e for e in self._g.edges() if e.source() == self)

    def in_edges(self):
        return (e for e in self._g.edges() if e.target() == self)

    def is_valid(self):
        return True


class Edge:
    def __init__(self, g, k):
        self._g, self._k = g, k

    def source(self):
        return Vertex(self._g, self._g._b.edges[self._k][0])

    def target(self):
        return Vertex(self._g, self._g._b.edges[self._k][1])

    def __iter__(self):
        return iter((self.source(), self.target()))

    def __eq__(self, o):
        return isinstance(o, Edge) and o._k == self._k

    def __hash__(self):
        return self._k


class PropertyMap:
    def __init__(self, g, kind, typ, vals=None):
        self._g, self._kind, self._typ = g, kind, typ
        self._obj = typ not in _DT
        self._arr = [] if self._obj else np.zeros(0, dtype=_DT[typ])
        if vals is not None:
            self._grow(self._n())
            for i, x in enumerate(vals):
                self._arr[i] = x

    def _n(self):
        return self._g._b.n if self._kind == "v" else len(self._g._b.edges)

    def _grow(self, n):
        if len(self._arr) < n:
            if self._obj:
                self._arr.extend([None] * (n - len(self._arr)))
            else:
                self._arr = np.concatenate([self._arr, np.zeros(n - len(self._arr), dtype=self._arr.dtype)])

    def _idx(self, k):
        i = k._k if isinstance(k, Edge) else int(k)
        if not 0 <= i < self._n():
            raise ValueError("invalid descriptor: %s" % i)
        self._grow(self._n())
        return i

    def __getitem__(self, k):
        i = self._idx(k)
        x = self._arr[i]
        return x if self._obj else x.item()

    def __setitem__(self, k, v):
        i = self._idx(k)
        self._arr[i] = v

    def value_type(self):
        return self._typ

    @property
    def a(self):
        if self._obj:
            return None
        self._grow(self._n())
        return self._arr

    @a.setter
    def a(self, v):
        self.a[:] = v

    def get_array(self):
        return self.a

    @property
    def fa(self):
        return self.a[self._g.get_vertices()] if self._kind == "v" else self.a

    def copy(self, value_type=None):
        p = PropertyMap(self._g, self._kind, value_type or self._typ)
        p._grow(self._n())
        for i in range(self._n()):
            p._arr[i] = self._arr[i] if i < len(self._arr) else p._arr[i]
        return p


class _Base:
    def __init__(self):
        self.n, self.edges = 0, []


class Graph:
    def __init__(self, g=None, directed=True, **kw):
        if not directed:
            raise NotImplementedError
        self._b = _Base()
        self.vp, self.ep, self.gp = {}, {}, {}
        if isinstance(g, Graph):
            self._b.n, self._b.edges = g._b.n, list(g._b.edges)
        elif g is not None:
            for s, t in g:
                while self._b.n <= max(s, t):
                    self._b.n += 1
                self._b.edges.append((int(s), int(t)))

    vertex_properties = property(lambda s: s.vp)
    edge_properties = property(lambda s: s.ep)
    graph_properties = property(lambda s: s.gp)

    def is_directed(self):
        return True

    def _keep(self, v):
        return True

    def _out(self, v):
        return [t for s, t in self._b.edges if s == v and self._keep(s) and self._keep(t)]

    def _in(self, v):
        return [s for s, t in self._b.edges if t == v and self._keep(s) and self._keep(t)]

    def add_vertex(self, n=1):
        first = self._b.n
        self._b.n += n
        vs = [Vertex(self, i) for i in range(first, first + n)]
        return vs[0] if n == 1 else iter(vs)

    def vertex(self, i, use_index=True, add_missing=False):
        i = int(i)
        while add_missing and self._b.n <= i:
            self._b.n += 1
        if not 0 <= i < self._b.n or not self._keep(i):
            raise ValueError("Invalid vertex index: %d" % i)
        return Vertex(self, i)

    def add_edge(self, s, t, add_missing=True):
        s, t = int(s), int(t)
        while add_missing and self._b.n <= max(s, t):
            self._b.n += 1
        if not (0 <= s < self._b.n and 0 <= t < self._b.n):
            raise ValueError("invalid vertex")
        self._b.edges.append((s, t))
        return Edge(self, len(self._b.edges) - 1)

    def add_edge_list(self, l, **kw):
        for e in l:
            self.add_edge(e[0], e[1])

    def edge(self, s, t, all_edges=False, add_missing=False):
        s, t = int(self.vertex(s)), int(self.vertex(t))
        es = [Edge(self, k) for k, e in enumerate(self._b.edges) if e == (s, t)]
        if not es and add_missing:
            es = [self.add_edge(s, t)]
        return es if all_edges else (es[0] if es else None)

    def vertices(self):
        return (Vertex(self, i) for i in range(self._b.n) if self._keep(i))

    iter_vertices = vertices

    def edges(self):
        return (Edge(self, k) for k, (s, t) in enumerate(self._b.edges) if self._keep(s) and self._keep(t))

    def num_vertices(self, ignore_filter=False):
        return self._b.n if ignore_filter else len(self.get_vertices())

    def num_edges(self, ignore_filter=False):
        return len(self._b.edges) if ignore_filter else len(list(self.edges()))

    def get_vertices(self, vprops=[]):
        return np.array([i for i in range(self._b.n) if self._keep(i)], dtype=np.int64)

    def get_edges(self, eprops=[]):
        return np.array([[e.source(), e.target()] + [p[e] for p in eprops] for e in self.edges()]).reshape(-1, 2 + len(eprops))

    def get_out_neighbors(self, v, vprops=[]):
        return np.array(self._out(int(self.vertex(v))), dtype=np.int64)

    def get_in_neighbors(self, v, vprops=[]):
        return np.array(self._in(int(self.vertex(v))), dtype=np.int64)

    def get_all_neighbors(self, v, vprops=[]):
        return np.concatenate([self.get_out_neighbors(v), self.get_in_neighbors(v)])

    get_out_neighbours, get_in_neighbours, get_all_neighbours = get_out_neighbors, get_in_neighbors, get_all_neighbors

    def get_in_degrees(self, vs, eweight=None):
        return np.array([len(self._in(int(v))) for v in vs], dtype=np.int64)

    def get_out_degrees(self, vs, eweight=None):
        return np.array([len(self._out(int(v))) for v in vs], dtype=np.int64)

    def new_vertex_property(self, typ, vals=None, val=None):
        return PropertyMap(self, "v", typ, vals if val is None else [val] * self._b.n)

    def new_edge_property(self, typ, vals=None, val=None):
        return PropertyMap(self, "e", typ, vals if val is None else [val] * len(self._b.edges))

    new_vp, new_ep = new_vertex_property, new_edge_property


class GraphView(Graph):
    def __init__(self, g, vfilt=None, efilt=None, directed=None, reversed=False, **kw):
        if efilt is not None or reversed:
            raise NotImplementedError
        self._b = g._b
        self.base = g
        self.vp, self.ep, self.gp = dict(g.vp), dict(g.ep), dict(g.gp)
        if vfilt is None:
            ok = range(g._b.n)
        elif callable(vfilt):
            ok = [int(v) for v in g.vertices() if vfilt(v)]
        elif isinstance(vfilt, PropertyMap):
            ok = [int(v) for v in g.vertices() if vfilt[v]]
        else:
            ok = [int(v) for v in g.vertices() if vfilt[int(v)]]
        self._ok = {v for v in ok if g._keep(v)}

    def _keep(self, v):
        return v in self._ok


def _bfs(g, v):
    d = {int(v): 0}
    q = collections.deque([int(v)])
    while q:
        x = q.popleft()
        for y in g._out(x):
            if y not in d:
                d[y] = d[x] + 1
                q.append(y)
    return d


def shortest_distance(g, source=None, target=None, weights=None, **kw):
    if source is None or weights is not None or kw:
        raise NotImplementedError
    d = _bfs(g, source)
    if target is not None:
        return d.get(int(target), _UNREACHED)
    p = g.new_vertex_property("int32_t")
    for i in range(g._b.n):
        p[i] = d.get(i, _UNREACHED)
    return p


def topological_sort(g):
    deg = {int(v): len(g._in(int(v))) for v in g.vertices()}
    q = sorted(v for v in deg if deg[v] == 0)
    r = []
    while q:
        v = q.pop()
        r.append(v)
        for t in g._out(v):
            deg[t] -= 1
            if deg[t] == 0:
                q.append(t)
    if len(r) != len(deg):
        raise ValueError("Graph is not a directed acylic graph (DAG).")
    return np.array(r, dtype=np.int32)


def is_DAG(g):
    try:
        topological_sort(g)
        return True
    except ValueError:
        return False


def label_components(g, directed=None, **kw):
    reach = {int(v): set(_bfs(g, v)) for v in g.vertices()}
    c = g.new_vertex_property("int32_t")
    names, hist = {}, []
    for v in reach:
        k = min(u for u in reach[v] if v in reach[u])
        if k not in names:
            names[k] = len(names)
            hist.append(0)
        c[v] = names[k]
        hist[names[k]] += 1
    return c, np.array(hist)


def extract_largest_component(g, directed=None, prune=False):
    c, h = label_components(g)
    k = int(np.argmax(h))
    return GraphView(g, vfilt=lambda v: c[v] == k)


label_largest_component = None


def graph_draw(*a, **k):
    return None
