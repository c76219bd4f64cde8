"""Random networks with per-step, per-scenario limits, built through the public API, plus what was asked of them."""
from mlib import *


class Net:
    """kinds: which optional node kinds to include."""
    def __init__(self, d, T=8, scen=None, step=1, solver=None, kinds=("storage", "agg", "virtual", "compound"), solver_args=None, start="2015-01-01", mins=True, retry=0):
        self.d, self.T = d, T
        self.scen = d.rng.choice([(), (2,), (3,), (2, 2)]) if scen is None else scen
        self.n = ncomb(self.scen)
        end = pd.to_datetime(start) + pd.Timedelta(days=step * T - 1)
        self.m = m = Model(start=pd.to_datetime(start), end=end, timestep=step, solver=solver or "glpk", solver_args=solver_args or {})
        for i, n in enumerate(self.scen): Scenario(m, f"s{i}", size=n)
        self.want = {}          # (node, attribute) -> array [t][c]
        self.basic, self.storages, self.aggs, self.virtuals, self.compounds = [], [], [], [], []
        r = d.rng
        ins = [self.node(Input, f"in{i}", mx=(2, 12), cost=(0, 3)) for i in range(r.randint(1, 3))]
        outs = [self.node(Output, f"out{i}", mx=(2, 12), cost=(-30, -5)) for i in range(r.randint(1, 3))]
        mids = [self.node(Link, f"li{i}", mx=(1, 14), cost=(0, 2)) for i in range(r.randint(1, 4))]
        if mins:                # a feasible minimum flow: a private route
            a, b = self.node(Input, "ina"), self.node(Output, "outb", mn=(0.5, 2), mx=(3, 5))
            l = self.node(Link, "lab"); a.connect(l); l.connect(b)
        up = list(ins)
        if "compound" in kinds:
            k = r.choice(["BreakLink", "LossLink", "DelayNode", "PiecewiseLink", "RiverSplit", None])
            src = r.choice(mids); dst = self.node(Output, "outc", mx=(2, 9), cost=(-40, -10))
            if k == "BreakLink": x = BreakLink(m, "comp", max_flow=self.val("comp_max", 1, 8))
            elif k == "LossLink": x = LossLink(m, "comp", loss_factor=r.choice([0.0, 0.2, 0.5]), loss_factor_type=r.choice(["net", "gross"]), max_flow=self.val("comp_max", 1, 8))
            elif k == "DelayNode": x = DelayNode(m, "comp", timesteps=r.randint(1, 3), initial_flow=1.0)
            elif k == "PiecewiseLink": x = PiecewiseLink(m, name="comp", nsteps=2, max_flows=[2.0, None], costs=[-1.0, 1.0])
            else: src.connect(dst); x = None
            if x is not None:
                src.connect(x); x.connect(dst); self.compounds.append(x)
                if k == "DelayNode": self.want[(dst, "max_flow")] = np.full((T, self.n), 1e3); dst.max_flow = 1e3
        if "storage" in kinds:
            for i in range(r.randint(0, 2)):
                if r.random() < 0.6:
                    mx = round(r.uniform(20, 80), 3); mxe = np.full((T, self.n), mx); mxg = mx
                else:
                    mxe = d.np.uniform(20, 80, (T, self.n)).round(3); mxg = Given(m, mxe)
                mne = np.full((T, self.n), round(r.uniform(0, 5), 3))
                ini = round(r.uniform(6, 19), 3)
                s = Storage(m, f"st{i}", max_volume=mxg, min_volume=float(mne[0, 0]), initial_volume=ini, initial_volume_pc=ini / mxe[0, 0], cost=round(r.uniform(-4, 1), 2))
                self.storages.append(s); self.want[(s, "max_volume")] = mxe; self.want[(s, "min_volume")] = mne; self.want[(s, "initial_volume")] = ini
                self.want[(s, "cost")] = np.full((T, self.n), s.cost)
        for l in mids:
            r.choice(up).connect(l)
            if r.random() < 0.7: up.append(l)
        for s in self.storages:
            r.choice(mids).connect(s); s.connect(r.choice(outs))
        for i in ins:
            if not any(e[0] is i for e in m.graph.edges()): i.connect(mids[0])
        for l in mids:
            if not any(e[0] is l for e in m.graph.edges()) or r.random() < 0.4:
                l.connect(r.choice(outs))
        for o in outs:
            if not any(e[1] is o for e in m.graph.edges()): mids[0].connect(o)
        self.ins, self.outs, self.mids = ins, outs, mids
        if "agg" in kinds and r.random() < 0.7:
            members = r.sample(ins + outs + mids, r.randint(1, 3))
            a = AggregatedNode(m, "agg", members)
            if r.random() < 0.5: a.flow_weights = [round(r.uniform(0.5, 2), 2) for _ in members]
            a.max_flow = self.val((a, "max_flow"), 5, 20)
            self.aggs.append(a)
        if "aggst" in kinds or ("agg" in kinds and len(self.storages) == 2 and r.random() < 0.7):
            if self.storages: self.aggst = AggregatedStorage(m, "aggst", list(self.storages))
        if "virtual" in kinds and r.random() < 0.7:
            members = r.sample(ins + outs + mids, r.randint(1, 2))
            f = [round(r.uniform(0.5, 2), 2) for _ in members]
            mx = round(r.uniform(20, 60), 2)
            v = VirtualStorage(m, "vs", members, factors=f, max_volume=mx, min_volume=0.0, initial_volume=mx, initial_volume_pc=1.0, cost=0.0)
            self.virtuals.append(v); self.want[(v, "factors")] = f; self.want[(v, "max_volume")] = np.full((T, self.n), mx); self.want[(v, "min_volume")] = np.zeros((T, self.n))

    def val(self, key, lo, hi):
        """A constant or parameter; what it gives is recorded under key."""
        d = self.d
        k = d.rng.choice(["const", "param", "cparam"])
        if k == "param":
            e = d.np.uniform(lo, hi, (self.T, self.n)).round(3); g = Given(self.m, e)
        else:
            x = round(d.rng.uniform(lo, hi), 3); e = np.full((self.T, self.n), x); g = x if k == "const" else ConstantParameter(self.m, x)
        self.want[key] = e
        return g

    def node(self, cls, name, mn=None, mx=None, cost=None):
        nd = cls(self.m, name)
        self.basic.append(nd)
        for a, r, dflt in (("min_flow", mn, 0.0), ("max_flow", mx, np.inf), ("cost", cost, 0.0)):
            if r is None: self.want[(nd, a)] = np.full((self.T, self.n), dflt)
            else: setattr(nd, a, self.val((nd, a), *r))
        return nd

    def describe(self):
        m = self.m
        return {"scenarios": self.scen, "nodes": [f"{type(n).__name__}:{n.fully_qualified_name}" for n in m.nodes if n.parent is None],
                "edges": [f"{a.fully_qualified_name}->{b.fully_qualified_name}" for a, b in m.graph.edges()],
                "limits": {f"{k[0].fully_qualified_name}.{k[1]}" if isinstance(k, tuple) else k: (v if not isinstance(v, np.ndarray) else v[:2]) for k, v in self.want.items()}}

    def steps(self, before_solve=None):
        """Drive the model by hand; yields the timestep after each completed step."""
        m = self.m
        m.setup(); m.reset()
        for t in range(self.T):
            ts = m.timestep = next(m.timestepper)
            m.before()
            if before_solve: before_solve(ts)
            m.solve()
            if hasattr(self, "after_solve"): self.after_solve(ts)
            m.after()
            yield ts
