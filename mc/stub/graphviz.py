"""Stand-in for graphviz: records what is drawn and shows nothing."""
drawn = []


class _G:
    directed = False

    def __init__(self, name=None, comment=None, filename=None, *a, **k):
        self.name, self.filename = name, filename
        self.nodes, self.edges_, self.label, self.views = {}, [], None, 0
        drawn.append(self)

    def node(self, name, label=None, _attributes=None, **k):
        d = self.nodes.setdefault(name, {})
        if label is not None:
            d["label"] = label
        d.update({a: b for a, b in k.items() if b not in (None, "")})

    def edge(self, a, b, label=None, _attributes=None, **k):
        self.nodes.setdefault(a, {})
        self.nodes.setdefault(b, {})
        self.edges_.append((a, b))

    def edges(self, tail_head_iter):
        for a, b in tail_head_iter:
            self.edge(a, b)

    def attr(self, kw=None, _attributes=None, **k):
        if kw is None and "label" in k:
            self.label = k["label"]

    def view(self, *a, **k):
        self.views += 1
        return self.filename

    def render(self, *a, **k):
        self.views += 1
        return self.filename


class Graph(_G):
    pass


class Digraph(_G):
    directed = True
