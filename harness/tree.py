"""Performs behaviours of spec/MCTree.tla and random histories on EventTree."""
import os

import impl                       # noqa: F401  (sets up the path of the library)
import pyflp
from pyflp._events import EventEnum, EventTree, IndexedEvent, U8Event
from pyflp.project import FileFormat, Project

BASE = 50                         # identifiers 1, 2, 3 of the model


def eid(i):
    return EventEnum(BASE + i)


class Trees:
    """The events are numbered in the order in which they were made; if they're `alike`, only the
    objects tell them apart, otherwise their values do as well."""

    def __init__(self, ops, path, alike=False):
        self.ops, self.path, self.alike = ops, path, alike
        self.trees = []
        self.made = 0
        self.events = []

    def event(self, i):
        self.made += 1
        e = U8Event(eid(i), bytes([1 if self.alike else self.made]))
        self.events = self.events[:self.made - 1] + [e]
        return e

    def token(self, e):
        if not self.alike:
            return e.value
        return next((n + 1 for n, x in enumerate(self.events) if x is e), 0)

    def tell_apart(self, on):
        if self.alike:
            for n, e in enumerate(self.events):
                e.value = n + 1 if on else 1

    def root(self, ids):
        self.made = 0
        self.trees = [EventTree(init=[IndexedEvent(n, self.event(i)) for n, i in enumerate(ids)])]
        self.ops.append({"o": "root", "ids": ids})

    def tokens(self, tree):
        return [self.token(e) for e in tree]

    def all(self):
        return [[self.tokens(t), sorted(t.indexes)] for t in self.trees]

    def do(self, op):
        """performs and records one operation of the model"""
        op = dict(op)
        o = op["o"]
        if o == "root":
            return self.root(op["ids"])
        if o == "save":
            op["l"] = self.saved()
            self.ops.append(op)
            return
        t = self.trees[op["v"] - 1]
        if o in ("subtree", "separate", "group", "divide", "subtrees"):
            if o == "subtree":
                want = [eid(i) for i in op["ids"]]
                got = [t.subtree(lambda e: e.id in want)]
            elif o == "separate":
                got = list(t.separate(eid(op["i"])))
            elif o == "group":
                got = list(t.group(*(eid(i) for i in op["ids"])))
            elif o == "divide":
                got = list(t.divide(eid(op["i"]), *(eid(i) for i in op["ids"])))
            else:
                how = {eid(i + 1): {0: False, 1: True, 2: None}[x] for i, x in enumerate(op["sel"])}
                got = list(t.subtrees(lambda e: how[e.id], op["rep"]))
            op["n"] = [self.tokens(g) for g in got]
            if op["keep"]:
                self.trees += got
        elif o == "look":
            i = eid(op["i"])
            try:
                first = self.token(t.first(i))
            except KeyError:
                first = 0
            op["x"] = [len(t), t.count(i), int(i in t), first, sorted(int(x) - BASE for x in t.ids),
                       [self.token(e) for e in t.get(i)],
                       [self.token(e) for e in t.get(i, eid(op["i"] % 3 + 1))], int(t.root is self.trees[0])]
            self.tell_apart(True)
            op["eq"] = [[int(t == u), int(u == t), int(t != u)] for u in self.trees]
            for by in (0, 1):      # a tree of equal events; one in which the last event has another value
                n = len(t)
                u = EventTree(init=[IndexedEvent(x, U8Event(e.id, bytes([e.value + by * (k == n - 1)])))
                                    for k, (x, e) in enumerate(zip(sorted(t.indexes), t))])
                op["eq"].append([int(t == u), int(u == t), int(t != u)])
            self.tell_apart(False)
        else:
            op["r"], op["t"] = "", 0
            made = self.made
            try:
                if o == "insert":
                    t.insert(op["pos"], self.event(op["i"]))
                elif o == "append" and self.made % 2:
                    t.append(self.event(op["i"]))
                elif o == "append":
                    t += self.event(op["i"])
                elif o == "pop":
                    op["t"] = self.token(t.pop(eid(op["i"]), *([op["pos"]] if op["pos"] else [])))
                else:
                    t.remove(eid(op["i"]), *([op["pos"]] if op["pos"] else []))
            except KeyError:
                op["r"] = "KeyError"
            except IndexError:
                op["r"] = "IndexError"
            if op["r"]:
                self.made = made
            op["all"] = self.all()
        self.ops.append(op)

    def saved(self):
        """tokens of the file a save writes"""
        p = Project(self.trees[0], channel_count=0, format=FileFormat.Project, ppq=96)
        self.tell_apart(True)
        pyflp.save(p, self.path)
        self.tell_apart(False)
        with open(self.path, "rb") as fp:
            data = fp.read()
        os.remove(self.path)
        return list(data[23::2])


def sc_tree(run, rng, ops, t, behaviour):
    tr = Trees(ops, run.path, t % 3 == 0)
    for op in behaviour:
        tr.do(op)
    tr.do({"o": "save"})


def sc_treewalk(run, rng, ops, t, length=14):
    """a longer random history"""
    tr = Trees(ops, run.path, t % 3 == 0)
    n = 3
    tr.root([rng.randrange(1, n + 1) for _ in range(rng.randrange(0, 9))])
    ok = [True]                    # mirrors which views are out of date
    parent = [0]
    some = lambda: [i for i in range(1, n + 1) if rng.random() < 0.6]
    for _ in range(length):
        live = [i + 1 for i, x in enumerate(ok) if x]
        v = rng.choice(live)
        tree = tr.trees[v - 1]
        k = rng.random()
        before = len(tr.trees)
        if k < 0.4 and before < 14:
            o = rng.choice(["subtree", "separate", "group", "divide", "subtrees"])
            op = {"o": o, "v": v, "keep": 1}
            if o == "subtree":
                op["ids"] = some()
            elif o == "separate":
                op["i"] = rng.randrange(1, n + 1)
            elif o == "group":
                op["ids"] = rng.sample([1, 2, 3], rng.randrange(1, 4))
            elif o == "divide":
                op["i"], op["ids"] = rng.randrange(1, n + 1), some()
            else:
                op["sel"] = [rng.randrange(3) for _ in range(n)]
                op["rep"] = rng.choice([-1, -1, 0, 1, 2, 3])
            tr.do(op)
            new = len(tr.trees) - before
            ok += [True] * new
            parent += [v] * new
        elif k < 0.5:
            tr.do({"o": "look", "v": v, "i": rng.randrange(1, n + 1)})
        elif k < 0.78:
            if rng.random() < 0.4:
                tr.do({"o": "append", "v": v, "i": rng.randrange(1, n + 1)})
            else:
                tr.do({"o": "insert", "v": v, "pos": rng.randrange(0, len(tree) + 2), "i": rng.randrange(1, n + 1)})
        else:
            i = rng.randrange(1, n + 1)
            pos = rng.choice([0, 0, 1, 2])
            of = [tr.token(e) for e in tree if e.id == eid(i)]
            tr.do({"o": rng.choice(["pop", "remove"]), "v": v, "i": i, "pos": pos})
            if pos < len(of):
                up, w = set(), v
                while w:
                    up.add(w)
                    w = parent[w - 1]
                for w, x in enumerate(tr.trees):
                    if w + 1 not in up and of[pos] in tr.tokens(x):
                        ok[w] = False
    tr.do({"o": "save"})


def sc_parts(run, rng, ops, t, behaviour):
    """every partition operation on one tree, on a view and on a view of it"""
    tr = Trees(ops, run.path, t % 3 == 0)
    for op in behaviour:
        tr.do(op)
