"""P22: events."""
import pandas as pd
from mlib import *
from pywr.recorders import *
from pywr.recorders import EventRecorder, EventDurationRecorder, EventStatisticRecorder
AGG = {"sum": np.sum, "min": np.min, "max": np.max, "mean": np.mean, "median": np.median}


class GivenRecorder(Recorder):
    """A recorder whose value of the step is given."""
    def __init__(self, m, vals, **kw):
        super().__init__(m, **kw); self.vals = vals; self.now = None
    def after(self): self.now = np.array(self.vals[self.model.timestepper.current.index], dtype=float)
    def values(self): return self.now


def trigger(d, m, T, n):
    kind = d.rng.choice(["recorder", "parameter", "index"])
    p = d.rng.choice([.2, .5, .8, .95])
    x = np.zeros((T, n))
    for i in range(n):
        on = False
        for t in range(T):
            if d.rng.random() > (p if on else .6): on = not on
            if on: x[t, i] = d.rng.choice([1, 2, -1] if kind == "index" else [1.0, 2.0, 0.25, -1.0, -0.5, 1e-3])
    cls = {"recorder": GivenRecorder, "parameter": Given, "index": GivenIndex}[kind]
    return kind, x, cls(m, x.astype(int) if kind == "index" else x, name="trigger")


def events(x, T, minimum):
    """Maximal runs of active steps per scenario: (scenario, start, end, finished)."""
    out = []
    for i in range(x.shape[1]):
        s = None
        for t in range(T + 1):
            on = t < T and x[t, i] != 0
            if on and s is None: s = t
            if not on and s is not None:
                if t - s >= minimum: out.append((i, s, t))
                s = None
    return sorted(out)


def runs(d):
    for q in range(d.n(60)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); step = d.rng.choice([1, 1, 3, "M"]); T = d.rng.choice([1, 4, 12])
        start = pd.Timestamp("2015-01-01")
        end = start + pd.Timedelta(days={1: T - 1, 3: 3 * T - 1, "M": 30 * T}[step])
        m = pmodel(start=str(start)[:10], end=str(end)[:10], step=step, scen=scen)
        T = len(m.timestepper)
        kind, x, trig = trigger(d, m, T, n)
        mn = d.rng.choice([1, 1, 2, 3, 5])
        tr = d.np.uniform(-5, 5, (T, n)); tracked = d.rng.random() < .7
        tp = Given(m, tr, name="tracked") if tracked else None
        ag, rg, ev = d.rng.choice(list(AGG)), d.rng.choice(list(AGG)), d.rng.choice(list(AGG))
        d.case("events", kind=kind, scen=scen, step=step, minimum=mn, trigger=x.T, tracked=tracked, seed=q)
        def go():
            r = EventRecorder(m, trig, minimum_event_length=mn, tracked_parameter=tp, event_agg_func=ev, name="events")
            du = EventDurationRecorder(m, r, recorder_agg_func=rg, agg_func=ag, name="duration")
            st = EventStatisticRecorder(m, r, recorder_agg_func=rg, event_agg_func=ev, agg_func=ag, name="statistic") if tracked else None
            for run in range(3):
                byrun = run < 2
                stop = T if byrun else d.rng.randint(1, T)
                d.case("events", kind=kind, scen=scen, step=step, minimum=mn, trigger=x.T, tracked=tracked, seed=q, run=run, steps=stop, aggregation=(ag, rg, ev))
                if byrun: m.run()
                else:
                    m.reset()
                    for t in range(stop): m.step()
                    m.finish()
                want = events(x, stop, mn)
                got = sorted((e.scenario_index.global_id, e.start.index, e.end.index) for e in r.events)
                d.eq("one event per maximal active period", [e[:2] for e in got], [e[:2] for e in want])
                late = (lambda e: e[2]) if byrun else (lambda e: min(e[2], stop - 1))      # the end of a run stopped by hand is its last step
                d.eq("ends", [e[2] for e in got], [late(e) for e in want])
                if [e[:2] for e in got] != [e[:2] for e in want]: continue
                per0 = m.timestepper.datetime_index
                dur = {}
                for e in r.events: dur.setdefault(e.scenario_index.global_id, []).append((e.end.datetime - e.start.datetime).days); d.eq("duration", e.duration, (e.end.datetime - e.start.datetime).days)
                d.near("durations by scenario", np.array(du.values()), [AGG[rg](dur[i]) if i in dur else np.nan for i in range(n)])
                df = r.to_dataframe()
                d.eq("frame rows", len(df), len(want))
                if want:
                    d.eq("frame events", sorted(zip(map(int, df["scenario_id"]), map(str, df["start"]), map(str, df["end"]))),
                         sorted((e.scenario_index.global_id, str(e.start.datetime), str(e.end.datetime)) for e in r.events))
                if tracked:
                    for e in r.events:
                        i, s = e.scenario_index.global_id, e.start.index
                        z = s
                        while z < stop and x[z, i] != 0: z += 1
                        d.near("tracked values", np.array(e.values), tr[s:z, i])
                    w = [[AGG[ev](tr[s:z, i]) for i2, s, z in want if i2 == i] for i in range(n)]
                    d.near("statistic by scenario", np.array(st.values()), [AGG[rg](k) if k else np.nan for k in w])
                    if want: d.near("frame values", sorted(df["value"]), sorted(AGG[ev](tr[s:z, i]) for i, s, z in want))
        d.guard(go)


def refuse(d):
    m = pmodel()
    d.case("minimum length below one")
    d.raises("refused", ValueError, lambda: EventRecorder(m, GivenIndex(m, [[0]], name="t"), minimum_event_length=0))
    m = pmodel()
    r = EventRecorder(m, GivenIndex(m, [[0]] * 20, name="t"), name="r"); EventStatisticRecorder(m, r, name="s")
    d.case("statistic of nothing tracked")
    d.raises("refused", ValueError, m.setup)


DRIVERS = [runs, refuse]
