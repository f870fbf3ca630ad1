"""Programs for the pipeline scenarios (harness/pipe.cpp, spec/Pipeline.tla)."""
import random

SRC = {0: "F", 1: "F", 2: "F", 4: "F", 10: "F", 14: "F", 3: "O", 5: "O", 11: "O", 6: "S", 8: "S", 15: "S", 7: "P",
       9: "P", 12: "P", 13: "P", 20: "T", 21: "T", 22: "T", 23: "T", 24: "T", 25: "T"}
NEEDEX = {3, 5, 7, 9, 11, 13, 22, 24}
FN = {4, 5, 6, 7, 21, 22}
ATT = {"F": {0: "F", 1: "O", 6: "S"}, "O": {0: "O", 1: "O", 2: "O", 3: "F", 6: "S"}, "S": {0: "F", 1: "O", 4: "F", 5: "O"},
       "P": {0: "O", 1: "O", 2: "O", 3: "S", 4: "F", 5: "O"}, "T": {0: "T", 1: "T", 2: "T", 3: "T"}}
RET = {2: "F", 3: "O", 4: "S", 5: "T", 6: "P"}
FINS = {"F": [0, 1, 2, 3, 4, 6, 7, 9], "O": [0, 1, 2, 3, 4, 5, 6, 7, 9], "S": [0, 1, 2, 3, 4, 6, 7, 9],
        "P": [0, 1, 2, 3, 4, 5, 6, 7, 9], "T": [0, 1, 2, 6, 7, 8, 10, 11, 12]}


def src_b(kind):
    if kind in (0, 20):
        return [0, 1, 2]
    if kind in (1, 2, 3, 8, 9):
        return [0, 1, 2, 3, 4]
    if kind in FN:
        return [0, 1, 2, 3]
    if kind in (10, 11, 12, 13, 23, 24):
        return [0, 1, 2, 3, 4, 11, 12, 13, 20, 21, 22, 23, 24]
    return [0, 1, 2, 3]


class Gen:
    """Random programs over the whole space."""

    def __init__(self, rnd, exs=(1, 2, 4, 5), lazy=None, depth=2, refuse=True):
        self.r, self.exs, self.depth = rnd, list(exs), depth
        self.lazy = lazy

    def ex(self):
        return self.r.choice(self.exs)

    def fnret(self, progs, level):
        """ret, b, inner of a function"""
        r = self.r
        ret = r.choice([0, 0, 1, 1, 1, 2, 3, 4, 5, 5, 6])
        if ret >= 2 and level >= self.depth:
            ret = r.choice([0, 1])
        if ret == 0:
            return ret, r.choice([0, 0, 1, 4]), 0
        if ret == 1:
            return ret, r.choice([0, 0, 1, 2, 3, 4]), 0
        if r.random() < 0.1:
            return ret, 1, 0 if len(progs) == 1 else self.prog(progs, RET[ret], level + 1, 0)
        return ret, 0, self.prog(progs, RET[ret], level + 1, r.choice([0, 0, 1, 2]))

    def prog(self, progs, holder, level, n):
        """appends a program which ends with this holder; returns its number"""
        r = self.r
        pid = len(progs)
        progs.append(None)
        for _ in range(200):
            k = r.choice([x for x in SRC if (x >= 20) == (holder == "T")] if holder in "FOSPT" else list(SRC))
            h = SRC[k]
            atts = []
            for i in range(n):
                a = r.choice(list(ATT[h]))
                atts.append(a)
                h = ATT[h][a]
            if h == holder:
                break
        else:
            k = {"F": 1, "O": 5, "S": 8, "P": 7, "T": 22}[holder]
            atts = []
        progs[pid] = self.fill(progs, k, atts, level)
        return pid

    def fill(self, progs, k, atts, level):
        r = self.r
        ex = self.ex() if k in NEEDEX or (k in (14, 15, 25) and r.random() < 0.5) else 0
        sig = ret = inner = 0
        if k in FN:
            sig = r.choice([0, 1])
            ret, b, inner = self.fnret(progs, level)
            if b == 4:
                b = 0
        else:
            b = r.choice(src_b(k))
        steps = []
        for a in atts:
            if a in (3, 4, 6, 7):
                steps.append([a, 0, 0, 0, 0, 0])
            elif a in (5, 8):
                steps.append([a, self.ex(), 0, 0, 0, 0])
            else:
                sg = r.choice([0, 0, 1, 1, 2, 3, 4, 5])
                rt, bb, inn = self.fnret(progs, level)
                if rt == 0 and bb == 4 and sg not in (0, 4):
                    bb = 0
                steps.append([a, self.ex() if a == 1 else 0, sg, rt, bb, inn])
        return [k, b, ex, sig, ret, inner, steps]

    def main(self, n, kinds):
        r = self.r
        progs = [None]
        k = r.choice(kinds)
        h = SRC[k]
        atts = []
        conv = r.randrange(0, n + 1) if h == "T" and r.random() < 0.25 else -1
        for i in range(n):
            if i == conv and h == "T":
                a = r.choice([7, 8])
                h = "F" if a == 7 else "O"
            else:
                a = r.choice(list(ATT[h]))
                h = ATT[h][a]
            atts.append(a)
        progs[0] = self.fill(progs, k, atts, 0)
        fin = r.choice(FINS[h])
        fex = self.ex() if fin in (4, 10) else 0
        return progs, [fin, fex, r.choice([0, 1, 2, 3, 4, 5])]


def enc(progs, fin, masks=(0, 0, 0), stop=0, alloc=0):
    out = [alloc, masks[0], masks[1], masks[2], stop, len(progs)]
    for k, b, ex, sig, ret, inner, steps in progs:
        out += [k, b, ex, sig, ret, inner, len(steps)]
        for s in steps:
            out += s
    return "pipe " + " ".join(map(str, out + fin))


# inner programs by the holder which is returned: source, b, ex (+ steps)
def inners(ret, ex):
    T = [[0, 0, 0, 1, 4, 0]]
    if ret == 2:
        return [[0, 0, 0], [0, 2, 0], [1, 0, 0], [1, 3, 0], [2, 1, 0], [4, 0, 0], [14, 0, 0], [14, 1, ex], [10, 0, 0],
                [10, 20, 0], [0, 0, 0, T], [1, 0, 0, T]]
    if ret == 3:
        return [[3, 0, ex], [3, 3, ex], [5, 0, ex], [5, 1, ex], [11, 0, ex], [11, 20, ex], [5, 0, ex, T],
                [5, 0, ex, [[2, 0, 0, 0, 0, 0]]], [1, 0, 0, [[1, ex, 1, 1, 4, 0]]]]
    if ret == 4:
        return [[8, 0, 0], [8, 3, 0], [6, 0, 0], [15, 0, 0], [15, 1, ex], [1, 0, 0, [[6, 0, 0, 0, 0, 0]]],
                [7, 0, ex, [[3, 0, 0, 0, 0, 0]]]]
    if ret == 6:
        return [[9, 0, ex], [9, 3, ex], [7, 0, ex], [7, 1, ex], [12, 0, 0], [13, 20, ex]]
    return [[20, 0, 0], [20, 1, 0], [20, 2, 0], [21, 0, 0], [22, 0, ex], [22, 1, ex], [23, 0, 0], [24, 0, ex], [24, 20, ex],
            [24, 23, ex], [25, 0, 0], [25, 1, ex], [20, 0, 0, T], [20, 0, 0, [[2, 0, 0, 0, 0, 0]]], [21, 0, 0, T], [22, 0, ex, T],
            [22, 0, ex, [[2, 0, 0, 1, 0, 0]]], [24, 20, ex, T], [25, 0, 0, T], [25, 0, ex, T], [20, 0, 0, [[1, ex, 1, 1, 4, 0]]],
            [22, 1, ex, [[0, 0, 3, 0, 0, 0], [2, 0, 0, 0, 0, 0]]]]


def prog_of(x):
    return [x[0], x[1], x[2], 0, 0, 0, x[3] if len(x) > 3 else []]


def bodies(sig, ex):
    """all (ret, b, inner program) of a step with this signature"""
    out = [(0, 0, None), (0, 1, None)] + ([(0, 4, None)] if sig in (0, 4) else [])
    out += [(1, b, None) for b in range(5)]
    for ret in (2, 3, 4, 5, 6):
        out += [(ret, 0, i) for i in inners(ret, ex)]
        out.append((ret, 1, inners(ret, ex)[0]))
    return out


HEADS = {"F": [(0, 0), (1, 0), (4, 0), (14, 0)], "O": [(5, 0), (3, 0), (11, 20)], "S": [(8, 0), (6, 0), (15, 0)],
         "P": [(7, 0), (9, 0)], "T": [(22, 0), (20, 0), (21, 0), (24, 20), (25, 0)]}


def single(holders="FOSPT", exs=(1, 3), fins=None):
    """every single step on every holder"""
    out = []
    for h in holders:
        for a in (0, 1, 2):
            if a not in ATT[h]:
                continue
            for ex in (exs if a == 1 else (0,)):
                for sig in range(6):
                    for ret, b, inn in bodies(sig, 2):
                        for hk, hb in HEADS[h]:
                            for cls in (0, 1, 2):
                                if hk in FN:
                                    head = [hk, cls, 1 if hk in NEEDEX else 0, 0, 1, 0]
                                elif hk in (11, 24):
                                    head = [hk, 20 + cls, 1, 0, 0, 0]
                                else:
                                    head = [hk, cls, 1 if hk in NEEDEX else 0, 0, 0, 0]
                                for fin in (fins or [0]):
                                    progs = [head + [[[a, ex, sig, ret, b, 1 if inn else 0]]]]
                                    if inn:
                                        progs.append(prog_of(inn))
                                    out.append((progs, [fin, 0, 0]))
    return out
