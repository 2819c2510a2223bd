"""reference evaluation of a network at given frequencies (independent of the optimizer)"""
from world import *
from c17 import ref_users
from c18 import ref_cycle, ref_travel
from c19 import ref_length
from c20 import ref_fmax


class Eval:
    """r: Run (strategies and shares at r.f); f: frequencies at which the lines run"""

    def __init__(self, w, r, f):
        self.w, self.r, self.f = w, r, f
        ps = r.ps
        flow = self.flow = Flow(w, r.ods, f)
        self.z, self.v = per_vehicle(flow.board, f), per_vehicle(flow.alight, f)
        self.l = {(a, b, c): x / f[a] if f[a] else x for (a, b, c), x in flow.section.items() if x}
        self.k = {ln.id: max([x for q, x in self.l.items() if q[0] == ln.id] + [0.0]) for ln in w.lines}
        self.tc = {ln.id: ref_cycle(ln, ref_travel(w, ln), self.z, self.v) for ln in w.lines}
        self.CO = sum((ln.mode.co + ln.mode.c1 * self.k[ln.id]) * f[ln.id] * self.tc[ln.id] for ln in w.lines)
        length = ref_length(w, f)
        self.CI = sum(m.c2 * length[m.name] for m in w.modes)
        self.ta, self.te, self.tv, self.tr = ref_users(w, r, f, self.z, self.v, ps)
        self.CU = self.ta * ps.spa + self.te * ps.spw + self.tv * ps.spv + self.tr * ps.spt / 60.0 * ps.spv
        self.VRC = self.CO + self.CI + self.CU
        lim = ref_fmax(w, f)
        self.con = [self.k[ln.id] - ln.mode.kmax for ln in w.lines]
        # in the order of the lines; no order of the streets and modes is promised
        self.con += sorted(lim.values())

    def limits(self, got):
        """constraints as listed by the code, in the order of self.con"""
        n = len(self.w.lines)
        got = list(got)
        return got[:n] + sorted(got[n:])

    def boardings(self, ln):
        """boardings per vehicle over a whole cycle"""
        return sum(x for q, x in self.z.items() if q[0] == ln.id)

    def loads(self, ln, d):
        """[(node, next node, travellers on board per vehicle)] along a direction"""
        nd, st = ln.nodes[d], ln.stops[d]
        out, at = [], 0
        cur = 0.0
        for a, b in zip(nd, nd[1:]):
            if a in st:
                cur = self.l.get((ln.id, d, a), 0.0)
            out.append((a, b, cur))
        return out


def vector(w, f):
    """frequencies in the order of the lines of the network"""
    return [f[r.id] for r in w.net.get_routes()]
