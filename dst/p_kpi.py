"""P21, P22: the KPIs a run reports are those of its history."""
import json
import math
import os
import random
import shutil
import tempfile
from collections import defaultdict

from . import core, gen
from .model import TOL, merge, overlap
from .p_core import FAULTY, INF_Q, RULE, SWARM, Core
from .p_det import STOCH
from .props import reg
from .simprop import BASE_REAL

KREAL = BASE_REAL + "; prodsys.util.post_processing.PostProcessor, warm_up_post_processing, Runner.get_performance_data (real, on pandas)"
KTOL = 1e-6


def close(a, b, tol=KTOL):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def cover(iv):
    return sum(b - a for a, b in iv)


def minus(iv, cut):
    """merged intervals iv without merged intervals cut"""
    out = []
    for a, b in iv:
        cur = a
        for x, y in cut:
            if y <= cur or x >= b:
                continue
            if x > cur:
                out.append([cur, x])
            cur = max(cur, y)
        if cur < b:
            out.append([cur, b])
    return out


def reference_states(T, end):
    """resource -> seconds per class, from the log alone: breakdown before charging before setup before production."""
    out = {}
    for res, xs in T.by_res.items():
        cls = defaultdict(list)
        for x in xs:
            k = {"Breakdown": "UD", "Charging": "CR", "Setup": "ST", "Production": "PR", "Transport": "PR"}.get(x.stype)
            if k:
                cls[k] += [[a, min(b, end)] for a, b in x.segs if b > a and a < end]
        taken, d = [], {}
        for k in ("UD", "CR", "ST", "PR"):
            iv = merge(cls[k])
            d[k] = cover(minus(iv, taken))
            taken = merge([tuple(v) for v in taken + iv])
        d["SB"] = end - cover(taken)
        out[res] = d
    return out


def pp_of(run, **kw):
    from prodsys.util.post_processing import PostProcessor
    return PostProcessor(df_raw=run.runner.event_logger.get_data_as_dataframe(), **kw)


def frame_rows(df):
    return [tuple(r) for r in df.itertuples(index=False)]


class Kpi(Core):
    real = KREAL
    swarm = 0.0001

    def evaluate_kpis(self, T, scn):
        raise NotImplementedError

    def more(self, T, scn):
        run = T.run
        if run.exc or run.livelock or run.truncated or not run.rows:
            return []
        try:
            return list(self.evaluate_kpis(T, scn))
        except Exception as e:
            where = core._classify_exception(e, e.__traceback__)
            if where is None:
                raise
            if where == "unknown":
                import traceback
                where = next((f.name for f in reversed(traceback.extract_tb(e.__traceback__)) if "/prodsys/" in f.filename), None)
                if where is None:
                    raise
            return [(f"exception:{type(e).__name__}", f"the KPIs of a valid run cannot be computed: {type(e).__name__}: {str(e)[:200]} (in {where})")]


KP0 = [(3, dict(INF_Q, horizon="mid")), (3, dict(INF_Q, **dict(FAULTY, horizon="mid"))), (2, dict(INF_Q, capacity=1, n_machines=(1, 3), horizon="mid", **{k: v for k, v in FAULTY.items() if k != "capacity"})),
      (1, dict(setup=1, n_procs=(2, 4), n_machines=(1, 2), breakdown=0.5, horizon="mid", multi_queue=0)), (1, dict(INF_Q, rework=1, aux=0.5, horizon="mid")), (1, dict(SWARM, horizon="short"))]
# what is reported while two or more units of a capacity of three or more are busy is a listed finding
KP = [(w, dict(d, cap_max=2, charging=0)) for w, d in KP0]


@reg
class P21(Kpi):
    id = "P21"
    quick, thorough = 1200, 60000
    profiles = KP
    hits = staticmethod(lambda T: sum(1 for x in T.exs if x.intr or x.stype in ("Setup", "Breakdown")))
    rule = RULE.format("at least one breakdown, setup or interruption was accounted for")

    def evaluate_kpis(self, T, scn):
        pp = pp_of(T.run)
        df = pp.df_aggregated_resource_states
        got = defaultdict(dict)
        for r in df.to_dict("records"):
            if r["Time_type"] in got[r["Resource"]]:
                yield "duplicate-state", f"{r['Resource']} has two entries for {r['Time_type']}"
            got[r["Resource"]][r["Time_type"]] = (float(r["time_increment"]), float(r["percentage"]), float(r["resource_time"]))
        ends = {res: sum(v[0] for v in d.values()) for res, d in got.items()}
        if not ends:
            if any(x.stype in ("Production", "Transport", "Breakdown", "Setup") for x in T.exs):
                yield "missing", "no resource states are reported although resources worked"
            return
        last = max(r.t for r in T.run.rows)
        relevant = max((r.t for r in T.run.rows if r.stype in ("Production", "Transport", "Breakdown", "Setup", "Charging")), default=0)
        end = max(ends.values())
        for res, e in ends.items():
            if not close(e, end):
                yield "time-lost", f"the states of {res} cover {e:.6g} of {end:.6g} time units: {({k: round(v[0], 4) for k, v in got[res].items()})}"
                return
        if end > last + 1e-6 or end < relevant - 1e-6:
            yield "time-span", f"the states cover {end:g}, the log ends at {last:g}"
            return
        ref = reference_states(T, end)
        for res, d in ref.items():
            if res not in got:
                if any(x.stype != "ProcessBreakdown" for x in T.by_res[res]):
                    yield "missing", f"{res} is missing from the resource states"
                continue
            for k, v in d.items():
                g = got[res].get(k, (0.0, 0.0, end))
                if not close(g[0], v, 1e-5):
                    yield "state-time", f"{res} spent {v:.6g} of {end:.6g} in {k}, reported {g[0]:.6g} (reference {({a: round(b, 4) for a, b in d.items()})})"
                    return
                if end > 0 and not close(g[1], 100 * v / end, 1e-4):
                    yield "percentage", f"{res} spent {100 * v / end:.4g} % in {k}, reported {g[1]:.4g} %"
                    return
        for res in got:
            if res not in ref:
                yield "unknown-resource", f"{res} has resource states but no log entries"
        kp = {}
        names = {"standby_time": "SB", "productive_time": "PR", "unscheduled_downtime": "UD", "setup_time": "ST", "charging_time": "CR"}
        for k in pp.machine_state_KPIS:
            kp[(k.resource, names[getattr(k.name, "value", k.name)])] = k.value
        want = {(r, k): v[1] for r, d in got.items() for k, v in d.items()}
        if set(kp) != set(want) or any(not close(kp[x], want[x]) for x in want):
            yield "kpi-objects", f"the resource KPIs differ from the resource states: {sorted(set(kp) ^ set(want))[:3]}"
        oee = dict(pp.df_oee_production_system.values)
        av = 100 - sum(d.get("UD", (0, 0.0))[1] for d in got.values()) / len(got)
        if abs(oee["Availability"] - av) > 0.0051:
            yield "availability", f"mean availability of the resources is {av:.4g} %, reported {oee['Availability']:g} %"


def wip_series(T, types=None):
    """[(time, wip after the instant)]"""
    ev = defaultdict(int)
    for p, r in T.created.items():
        if types is None or T.sys.ptype_of(p) in types:
            ev[r.t] += 1
    for p, r in T.finished.items():
        if types is None or T.sys.ptype_of(p) in types:
            ev[r.t] -= 1
    out, w = [], 0
    for t in sorted(ev):
        w += ev[t]
        out.append((t, w))
    return out


def station_wip(T):
    """{machine: [(time, products at it after the instant)]}: products arrive by a loaded drive and leave by one."""
    ev = defaultdict(lambda: defaultdict(int))
    for x in T.exs:
        if x.stype == "Transport" and not x.empty and x.start is not None:
            ev[x.origin][x.start] -= 1
            if x.end is not None:
                ev[x.target][x.end] += 1
    out = {}
    for m in T.sys.res:
        if m in T.sys.machines and any(r.res == m and r.stype != "ProcessBreakdown" for r in T.run.rows):  # a machine on which nothing happens is not reported
            w, out[m] = 0, []
            for t in sorted(ev[m]):
                w += ev[m][t]
                out[m].append((t, w))
    return out


def at(series, t):
    w = 0
    for a, b in series:
        if a > t:
            break
        w = b
    return w


@reg
class P22(Kpi):
    id = "P22"
    quick, thorough = 480, 40000
    profiles = [(3, dict(INF_Q, horizon="mid")), (2, dict(INF_Q, **dict(FAULTY, horizon="mid"))), (2, dict(INF_Q, n_products=(10, 40), arrivals={"finite": 1})),
                (1, dict(INF_Q, aux=1, horizon="mid")), (1, dict(SWARM, horizon="short")), (1, dict(INF_Q, horizon="mid", **STOCH))]
    hits = staticmethod(lambda T: len(T.finished))
    rule = RULE.format("at least one product was finished")

    def scenario(self, i, seed):
        scn = super().scenario(i, seed)
        rng = random.Random(seed + 5)
        if rng.random() < 0.4:  # names with separators
            m = {}
            for p in scn["system"]["product_data"]:
                m[p["product_type"]] = p["product_type"] + rng.choice(["_1", "_a", "_1_2", " b"])
            for a in scn["system"]["auxiliary_data"]:
                m[a["auxiliary_type"]] = a["auxiliary_type"] + rng.choice(["_1", "_a"])
            scn["system"] = gen.rename(scn["system"], m)
        scn["io"] = rng.random() < 0.25
        scn["full"] = rng.random() < 0.4
        scn["cut"] = rng.choice(["static_ratio", "mser5", "threshold_stabilization"])
        return scn

    def evaluate_kpis(self, T, scn):
        S = T.sys
        pp = pp_of(T.run)
        fin = {p: (T.created[p].t, r.t) for p, r in T.finished.items() if p in T.created}
        tp = {r["Product"]: r for r in pp.df_throughput.to_dict("records")}
        if set(tp) != set(fin) or len(pp.df_throughput) != len(tp):
            yield "finished-products", f"throughput times are reported for {len(pp.df_throughput)} products, {len(fin)} were finished"
            return
        for p, (a, b) in fin.items():
            r = tp[p]
            if not (close(r["Throughput_time"], b - a) and close(r["Start_time"], a) and close(r["End_time"], b)):
                yield "throughput-time", f"{p} was created at {a:g} and finished at {b:g}, reported {r['Start_time']:g}..{r['End_time']:g} = {r['Throughput_time']:g}"
                return
            if r["Product_type"] != S.ptype_of(p):
                yield "product-type", f"{p} is counted for product type {r['Product_type']}"
                return
        yield from self.judge(T, pp, fin, "")
        # WIP
        for ty in [None] + sorted(S.ptype):
            ref = wip_series(T, None if ty is None else {ty})
            df = pp.df_WIP if ty is None else pp.df_WIP_per_product
            if ty is not None:
                if "Product_type" not in df.columns:
                    continue
                df = df.loc[df["Product_type"] == ty]
            if "WIP" not in df.columns:
                if ref:
                    yield "wip", f"no WIP for {ty}"
                continue
            last = {}
            low = 0
            for t, w in df.sort_values("Time", kind="stable")[["Time", "WIP"]].itertuples(index=False):
                last[t] = w
                low = min(low, w)
            if low < 0:
                yield "negative-wip", f"WIP of {ty or 'the system'} is {low:g}"
                return
            for t, w in last.items():
                if not close(w, at(ref, t)):
                    yield "wip", f"WIP of {ty or 'the system'} at {t:g} is {at(ref, t)}, reported {w:g}"
                    return
            for t, _ in ref:
                if t not in last:
                    yield "wip", f"WIP of {ty or 'the system'} is not reported at {t:g}"
                    return
            agg = pp.df_aggregated_WIP
            key = "Total" if ty is None else ty
            if ref:
                hi = max(w for _, w in ref)
                if key not in agg.index or not (-1e-9 <= agg[key] <= hi + 1e-9):
                    yield "mean-wip", f"mean WIP of {key} is reported as {agg.get(key)}, the WIP lies between 0 and {hi}"
                    return
                hi2 = max((w for _, w in ref), default=0)
                if key != "Total" and not close(agg[key], df["WIP"].mean()):
                    yield "mean-wip", f"mean WIP of {key} is {df['WIP'].mean():g}, reported {agg[key]:g}"
        df = pp.df_WIP_per_resource
        mean = dict(pp.df_mean_wip_per_station.values)
        for m, ref in station_wip(T).items():
            rows = df.loc[df["WIP_resource"] == m].sort_values("Time", kind="stable")
            last = {}
            for t, w in rows[["Time", "WIP"]].itertuples(index=False):
                last[t] = w
            if any(not close(w, at(ref, t)) for t, w in last.items()) or any(t not in last for t, _ in ref):
                yield "station-wip", f"the products at {m} are {ref[:6]}, reported {sorted(last.items())[:6]}"
                return
            if (m in mean) != bool(ref) or (ref and not close(mean[m], rows["WIP"].mean())):
                yield "station-mean-wip", f"mean number of products at {m} is reported as {mean.get(m)}, the reported numbers are {list(rows['WIP'])[:8]}"
                return
        want = {("Total" if t is None else t): [(a, b) for a, b in wip_series(T, None if t is None else {t})] for t in [None] + sorted(S.ptype)}
        dyn = defaultdict(dict)
        for k in pp.dynamic_WIP_KPIs:
            d = dyn[k.product_type]
            d[k.start_time] = (k.value, k.end_time)
        for ty, ref in want.items():
            if {t: w for t, w in ref} != {t: v[0] for t, v in dyn.get(ty, {}).items()}:
                yield "dynamic-wip", f"the WIP history of {ty} is {ref[:6]}, reported {sorted((t, v[0]) for t, v in dyn.get(ty, {}).items())[:6]}"
                return
        dtp = {k.product: (k.start_time, k.end_time, k.value, k.product_type) for k in pp.dynamic_thoughput_time_KPIs}
        if set(dtp) != set(fin) or any(not (close(v[0], fin[p][0]) and close(v[1], fin[p][1]) and v[3] == S.ptype_of(p)) for p, v in dtp.items()):
            yield "dynamic-throughput-time", f"the throughput time history does not name the finished products: {sorted(dtp, key=str)[:3]} / {sorted(fin)[:3]}"
            return
        # auxiliaries
        if S.aux:
            use = defaultdict(lambda: defaultdict(int))
            for r in T.aux_rows:
                d = {"started auxiliary usage": 1, "finished auxiliary usage": -1}.get(r.act)
                if d:
                    use[S.ptype_of(r.prod)][r.t] += d
            aw = pp.df_auxiliary_WIP_per_auxiliary_type
            for ty in {a["auxiliary_type"] for a in S.aux.values()}:
                ref, w = [], 0
                for t in sorted(use[ty]):
                    w += use[ty][t]
                    ref.append((t, w))
                last = {}
                if len(aw):
                    for t, w in aw.loc[aw["Auxiliary_type"] == ty][["Time", "auxiliary_WIP"]].itertuples(index=False):
                        last[t] = w
                for t, w in last.items():
                    if not close(w, at(ref, t)):
                        yield "auxiliary-wip", f"{at(ref, t)} auxiliaries {ty} are in use at {t:g}, reported {w:g}"
                        return
                if any(t not in last for t, _ in ref):
                    yield "auxiliary-wip", f"the use of auxiliary {ty} is not reported completely"
                    return
        # flow ratio
        if fin and all(any(x.stype == "Production" and x.end for x in T.prod_exs(p)) for p in fin):
            rows = {r["Product_type"]: r for r in pp.df_production_flow_ratio.to_dict("records")}
            for ty in {S.ptype_of(p) for p in fin}:
                ps = [p for p in fin if S.ptype_of(p) == ty]
                tot = sum(fin[p][1] - fin[p][0] for p in ps)
                pr = sum(x.work() for p in ps for x in T.prod_exs(p, "Production"))
                tr = sum(x.work() for p in ps for x in T.prod_exs(p, "Transport"))
                r = rows.get(ty)
                if tot <= 0:
                    continue
                if r is None or not (close(r["Production "], 100 * pr / tot, 1e-5) and close(r["Transport "], 100 * tr / tot, 1e-5) and close(r["Idle "], 100 * (tot - pr - tr) / tot, 1e-5)):
                    yield "flow-ratio", f"{ty}: {100 * pr / tot:.5g} % production, {100 * tr / tot:.5g} % transport; reported {r}"
                    return
        # warm-up cut-off
        if fin:
            yield from self.warm_up(T, fin, scn["cut"], scn["full"])
        # the runner's reports
        if not scn["full"]:
            if scn["io"]:
                yield from self.round_trip(T, pp)
            return
        perf = T.run.runner.get_performance_data()
        out = defaultdict(dict)
        for k in perf.kpis:
            nm = getattr(k.name, "value", k.name)
            if nm in ("output", "throughput", "throughput_time"):
                out[nm][k.product_type] = k.value
        n = defaultdict(int)
        for p in fin:
            n[S.ptype_of(p)] += 1
        if dict(n) != out["output"]:
            yield "performance-data", f"output {dict(n)}, reported {dict(out['output'])}"
            return
        if len(perf.event_log) != len(T.run.rows):
            yield "performance-data", f"{len(T.run.rows)} events were logged, {len(perf.event_log)} are in the performance data"
            return
        for e, r in zip(perf.event_log, T.run.rows):
            if not (close(e.time, r.t) and e.resource == r.res and e.state == r.state and e.product == r.prod and getattr(e.state_type, "value", e.state_type) == r.stype
                    and getattr(e.activity, "value", e.activity) == r.act):
                yield "performance-data", f"event {r.brief()} is reported as {e}"
                return
        if scn["io"]:
            yield from self.round_trip(T, pp)

    def judge(self, T, pp, fin, tag):
        S = T.sys
        by = defaultdict(list)
        for p in fin:
            by[S.ptype_of(p)].append(fin[p])
        agg = pp.df_aggregated_throughput_time
        out = pp.df_aggregated_output_and_throughput
        o2 = pp.df_aggregated_output
        if set(agg.index) != set(by) or set(out.index) != set(by) or set(o2.index) != set(by):
            yield "aggregates" + tag, f"aggregates for {sorted(agg.index)} / {sorted(out.index)}, finished types {sorted(by)}"
            return
        if not fin:
            return
        span = max(b for _, b in fin.values()) - min(a for a, _ in fin.values())
        for ty, l in by.items():
            m = sum(b - a for a, b in l) / len(l)
            if not close(agg[ty], m):
                yield "mean-throughput-time" + tag, f"mean throughput time of {ty} is {m:g}, reported {agg[ty]:g}"
            if out.loc[ty, "Output"] != len(l) or o2[ty] != len(l):
                yield "output" + tag, f"{len(l)} products {ty} were finished, reported {out.loc[ty, 'Output']} / {o2[ty]}"
            elif span > 0 and not close(out.loc[ty, "Throughput"], len(l) / span):
                yield "throughput" + tag, f"throughput of {ty} is {len(l)} / {span:g}, reported {out.loc[ty, 'Throughput']:g}"
        kp = {(getattr(k.name, "value", k.name), k.product_type): k.value for k in pp.throughput_and_output_KPIs + pp.aggregated_throughput_time_KPIs}
        for ty, l in by.items():
            if kp.get(("output", ty)) != len(l) or not close(kp.get(("throughput_time", ty), -1), agg[ty]) or (span > 0 and not close(kp.get(("throughput", ty), -1), len(l) / span)):
                yield "kpi-objects" + tag, f"the KPIs of {ty} differ from the aggregates: {({k: v for k, v in kp.items() if k[1] == ty})}"
        if pp.get_aggregated_throughput_data() != [len(by[t]) for t in sorted(by)] or any(
                not close(x, y) for x, y in zip(pp.get_aggregated_throughput_time_data(), [agg[t] for t in sorted(by)])):
            yield "ordered-data" + tag, "the aggregated lists are not ordered by product type"

    def warm_up(self, T, fin, method, full):
        S = T.sys
        pp = pp_of(T.run, warm_up_cutoff=True, cut_off_method=method)
        kept = set(pp.df_throughput_with_warum_up_cutoff["Product"])
        if not kept <= set(fin):
            yield "warm-up", "unfinished products are kept"
            return
        if kept != set(fin):
            first = min(fin[p][0] for p in kept) if kept else math.inf
            if kept != {p for p in fin if fin[p][0] >= first}:
                yield "warm-up", f"{method}: the products that started from {first:g} on are not exactly the ones kept"
                return
        if method == "static_ratio":
            by = defaultdict(list)
            for p in fin:
                by[S.ptype_of(p)].append(fin[p][0])
            cut = min(sorted(l)[int(len(l) * 0.15)] for l in by.values())
            want = {p for p in fin if fin[p][0] >= cut}
            if any(max(l) < cut for l in by.values()):
                want = set(fin)
            if kept != want:
                yield "warm-up", f"the first 15 % of the products are cut off: {len(want)} of {len(fin)} remain, reported {len(kept)}"
                return
        yield from self.judge(T, pp, {p: fin[p] for p in kept}, "-warm-up")
        if not full:
            return
        r = T.run.runner
        old = r.warm_up_cutoff, r.cut_off_method, r.post_processor
        try:
            r.warm_up_cutoff, r.cut_off_method, r.post_processor = True, method, None
            a = r.get_aggregated_data_simulation_results()["Throughput"]["Output"]
            b = [k.value for k in r.get_performance_data().kpis if getattr(k.name, "value", k.name) == "output"]
        finally:
            r.warm_up_cutoff, r.cut_off_method, r.post_processor = old
        n = defaultdict(int)
        for p in kept:
            n[S.ptype_of(p)] += 1
        if sorted(a.values()) != sorted(n.values()) or sorted(b) != sorted(n.values()):
            yield "warm-up-reports", f"with warm-up cut-off {dict(n)} products count, the aggregated results count {a}, the performance data {b}"

    def round_trip(self, T, pp):
        from prodsys.util.post_processing import PostProcessor
        d = tempfile.mkdtemp(prefix="dst-kpi-")
        try:
            T.run.runner.save_results_as_csv(d)
            f = [x for x in os.listdir(d) if x.endswith(".csv")]
            if len(f) != 1:
                yield "csv", f"saving wrote {f}"
                return
            q = PostProcessor(filepath=os.path.join(d, f[0]))
            for what in ("df_aggregated_output_and_throughput", "df_aggregated_throughput_time", "df_aggregated_resource_states"):
                a, b = getattr(pp, what).reset_index(), getattr(q, what).reset_index()
                a, b = frame_rows(a), frame_rows(b)
                if len(a) != len(b) or any(not (x == y or (isinstance(x, float) and close(x, y)) or (x != x and y != y)) for r, s in zip(a, b) for x, y in zip(r, s)):
                    yield "csv", f"{what} of the saved results differs: {a[:2]} / {b[:2]}"
                    return
            T.run.runner.save_results_as_json(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
