"""Reads the DOT text of a drawn graph."""
import re
from .core import HarnessError

TOK = re.compile(r'\s+|//[^\n]*|(->|[\[\]{}=;,])|"((?:[^"\\]|\\.)*)"|([A-Za-z_0-9.\-\x80-\U0010ffff]+?)(?=->|[\s\[\]{}=;,"]|$)', re.S)


def _tokens(src):
    i = 0
    out = []
    while i < len(src):
        m = TOK.match(src, i)
        if not m or m.end() == i:
            raise HarnessError("unreadable DOT at %r" % src[i:i + 80])
        i = m.end()
        if m.group(1):
            out.append(("p", m.group(1)))
        elif m.group(2) is not None:
            out.append(("s", m.group(2).replace('\\"', '"')))
        elif m.group(3):
            out.append(("s", m.group(3)))
    return out


class G:
    def __init__(self):
        self.name, self.graph, self.nodes, self.edges, self.dup = None, {}, {}, [], []


def parse(src):
    t = _tokens(src)
    g = G()
    i = 0
    while i < len(t) and t[i][0] == "s":
        if t[i][1] not in ("digraph", "strict"):
            g.name = t[i][1]
        i += 1
    if t[i] != ("p", "{"):
        raise HarnessError("no graph in %r" % src[:80])
    i += 1

    def attrs(i):
        a = {}
        if i < len(t) and t[i] == ("p", "["):
            i += 1
            while t[i] != ("p", "]"):
                if t[i] in (("p", ","), ("p", ";")):
                    i += 1
                    continue
                k = t[i][1]
                if t[i + 1] != ("p", "="):
                    raise HarnessError("attribute expected in %r" % src)
                a[k] = t[i + 2][1]
                i += 3
            i += 1
        return a, i
    while t[i] != ("p", "}"):
        if t[i] == ("p", ";"):
            i += 1
            continue
        n = t[i][1]
        i += 1
        if t[i] == ("p", "="):
            g.graph[n] = t[i + 1][1]
            i += 2
        elif t[i] == ("p", "->"):
            m = t[i + 1][1]
            a, i = attrs(i + 2)
            g.edges.append((n, m, a))
        else:
            a, i = attrs(i)
            if n in ("graph", "node", "edge"):
                if n == "graph":
                    g.graph.update(a)
            else:
                if n in g.nodes:
                    g.dup.append(n)
                g.nodes[n] = a
    return g
