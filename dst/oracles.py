"""History oracles: each takes a Trace and yields (kind, message) violations of one property."""
from collections import defaultdict

from .model import INF, TOL, merge, overlap, subtract


def near(a, b, tol=TOL):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# --- P01 product life cycle ---------------------------------------------------------------
def lifecycle(T):
    S = T.sys
    for r in T.created_dup:
        yield "created-twice", f"product {r.prod} is created a second time at t={r.t:g}"
    for r in T.finished_dup:
        yield "finished-twice", f"product {r.prod} is finished a second time at t={r.t:g}"
    for p, r in T.created.items():
        src = S.source.get(r.res)
        ty = S.ptype_of(p)
        if src is None or src["product_type"] != ty:
            yield "wrong-source", f"product {p} is created at {r.res}, which does not make type {ty}"
    first = {}
    last = {}
    for x in T.exs:
        if x.prod:
            first.setdefault(x.prod, x)
            if x.i1 is not None:
                last[x.prod] = max(last.get(x.prod, -1), x.i1)
            last[x.prod] = max(last.get(x.prod, -1), x.i0)
    for p, x in first.items():
        if S.is_aux(p):
            continue
        c = T.created.get(p)
        if c is None:
            yield "work-on-unknown", f"{x!r} handles product {p}, which was never created"
        elif c.i > x.i0:
            yield "work-before-create", f"{x!r} handles product {p} before its creation at t={c.t:g}"
    for p, r in T.finished.items():
        if p not in T.created:
            yield "finish-unknown", f"product {p} is finished at t={r.t:g} but was never created"
            continue
        snk = S.sink.get(r.res)
        ty = S.ptype_of(p)
        if snk is None or snk["product_type"] != ty:
            yield "wrong-sink", f"product {p} of type {ty} is finished at {r.res}"
        if last.get(p, -1) > r.i:
            yield "work-after-finish", f"product {p} is finished at t={r.t:g} but is handled again later"
        for x in T.prod_exs(p):
            if x.open:
                yield "finish-with-open-work", f"product {p} is finished at t={r.t:g} while {x!r} has not ended"
        if r.t < T.created[p].t:
            yield "finish-before-create", f"product {p} finished at {r.t:g} before creation"
    # no product does two things at once
    for p in T.created:
        ex = sorted(T.prod_exs(p, "Production", "Transport"), key=lambda x: x.i0)
        for a, b in zip(ex, ex[1:]):
            # an empty run fetches the product: the product itself may rest meanwhile
            if a.i1 is None or a.i1 > b.i0:
                yield "two-places", f"product {p}: {b!r} starts before {a!r} has ended"
    # the run's own counters agree with the history
    run = T.run
    if run.completed and run.runner is not None:
        fin = run.runner.product_factory.finished_products
        ids = [q.product_data.ID for q in fin]
        if len(ids) != len(set(ids)):
            yield "counter-dup", f"finished product list repeats a product: {ids}"
        if set(ids) != set(T.finished):
            yield "counter-mismatch", f"finished products of the run {sorted(set(ids) ^ set(T.finished))} disagree with the event log"


# --- P02 process plan ---------------------------------------------------------------------
def production_sequence(T, p):
    return sorted((x for x in T.prod_exs(p, "Production") if x.i1 is not None), key=lambda x: x.i1)


def plan(T):
    S = T.sys
    for x in T.exs:
        if x.stype == "Production":
            r = S.res.get(x.res)
            if r is None or x.state not in r["process_ids"]:
                yield "incapable-resource", f"{x!r}: resource {x.res} does not offer process {x.state}"
            elif x.res in S.vehicles:
                yield "incapable-resource", f"{x!r}: production on a transport resource"
        if x.stype == "Transport" and x.prod and not S.is_aux(x.prod):
            tp = S.ptype.get(S.ptype_of(x.prod), {}).get("transport_process")
            r = S.res.get(x.res)
            if r is None or x.state not in r["process_ids"]:
                yield "incapable-vehicle", f"{x!r}: {x.res} does not offer process {x.state}"
            elif not transport_ok(S, tp, x.state):
                yield "wrong-transport-process", f"{x!r}: product asks for transport {tp}"
    for p in T.created:
        seq = T.prod_exs(p, "Production")
        seq = sorted(seq, key=lambda x: x.i0)
        rework = {q for q, d in S.proc.items() if d["type"] == "ReworkProcesses"}
        entries = S.plan(S.ptype_of(p))
        plan_rework = set(entries[1]) & rework
        steps = [x for x in seq if x.state not in rework or x.state in plan_rework]
        done = p in T.finished
        if entries[0] == "list":
            ent = entries[1]
            for k, x in enumerate(steps):
                if k >= len(ent):
                    yield "extra-step", f"product {p} runs {x!r} beyond its plan {ent}"
                    break
                if not S.serves(ent[k], x.state):
                    yield "wrong-step", f"product {p}: step {k + 1} of plan {ent} is {ent[k]}, executed {x!r}"
                    break
            if done and len([x for x in steps if x.i1 is not None]) < len(ent):
                yield "missing-step", f"product {p} is finished after steps {[x.state for x in steps]} of plan {ent}"
        else:
            _, nodes, preds = entries
            # assign executions to nodes: with capabilities several nodes may match, search for any valid assignment
            if not dag_ok(S, [x.state for x in steps], nodes, preds):
                yield "precedence", f"product {p}: executed {[x.state for x in steps]} is no linear extension of {preds}"
            elif done and len(steps) != len(nodes):
                yield "missing-step", f"product {p} is finished after {[x.state for x in steps]} of nodes {nodes}"


def transport_ok(S, asked, got):
    if asked == got:
        return True
    a, g = S.proc.get(asked), S.proc.get(got)
    if not a or not g:
        return False
    if a["type"] == "CompoundProcesses":
        return got in a["process_ids"]
    cap = a.get("capability")
    return bool(cap) and g.get("capability") == cap


def dag_ok(S, seq, nodes, preds):
    def rec(i, done):
        if i == len(seq):
            return True
        for n in nodes:
            if n not in done and preds[n] <= done and S.serves(n, seq[i]):
                if rec(i + 1, done | {n}):
                    return True
        return False

    return rec(0, frozenset())


# --- P03 rework ---------------------------------------------------------------------------
LEVELS = [("rework-without-failure", "a rework without an earlier failed step it can rework"),
          ("blocking-skipped", "the plan continues although a failed step with blocking rework was not reworked"),
          ("rework-early", "non-blocking rework before the plan was completed"),
          ("rework-missing", "the product leaves although a certainly failed step was not reworked")]


def rework(T, stats=None):
    S = T.sys
    cover = defaultdict(list)
    for q, d in S.proc.items():
        if d["type"] == "ReworkProcesses":
            for f in d["reworked_process_ids"]:
                cover[f].append(q)
    rw = {q for q, d in S.proc.items() if d["type"] == "ReworkProcesses"}
    rate = {q: (d.get("failure_rate") or 0.0) for q, d in S.proc.items()}
    for p in T.created:
        seq = sorted(T.prod_exs(p, "Production"), key=lambda x: x.i0)
        done = p in T.finished
        ent = S.plan(S.ptype_of(p))[1]
        if set(ent) & rw:
            continue
        names = [x.state for x in seq]
        if any(n in rw for n in names) or any(rate.get(n, 0) >= 1 for n in names):
            for lv, (kind, msg) in enumerate(LEVELS):
                if not rework_ok(S, names, rw, rate, cover, len(ent), done, lv):
                    yield kind, f"product {p}: {msg}; executed {names}, finished: {done}"
                    break
        if stats is not None and done:
            for n in names:
                if n not in rw and 0 < rate.get(n, 0.0) < 1:
                    stats.setdefault(rate[n], [0, 0])[0] += 1
                if n in rw:
                    fs = {rate[f] for f in S.proc[n]["reworked_process_ids"]}
                    if len(fs) == 1 and 0 < next(iter(fs)) < 1:
                        stats.setdefault(next(iter(fs)), [0, 0])[1] += 1
                    elif any(0 < f < 1 for f in fs):
                        stats["mixed"] = True


def rework_ok(S, names, rw, rate, cover, nsteps, done, level):
    """is there an assignment of reworks to earlier failures that respects the rules up to `level`?"""
    seen = set()

    def rec(i, normal, owed, avail):
        # owed: certain failures not yet reworked, avail: possible failures (sorted tuples)
        if i == len(names):
            return not (level >= 3 and done and owed)
        key = (i, owed, avail)
        if key in seen:
            return False
        seen.add(key)
        n = names[i]
        if n in rw:
            for which, pool in ((0, owed), (1, avail)):
                for f in sorted(set(pool)):
                    if n not in cover[f]:
                        continue
                    if level >= 2 and normal < nsteps and not blocking(S, cover[f]):
                        continue
                    rest = list(pool)
                    rest.remove(f)
                    rest = tuple(rest)
                    if rec(i + 1, normal, rest if which == 0 else owed, rest if which == 1 else avail):
                        return True
            return False
        if level >= 1 and any(blocking(S, cover[f]) for f in owed):
            return False
        f = rate.get(n, 0.0)
        if f >= 1.0:
            return rec(i + 1, normal + 1, tuple(sorted(owed + (n,))), avail)
        if f > 0:
            return rec(i + 1, normal + 1, owed, tuple(sorted(avail + (n,))))
        return rec(i + 1, normal + 1, owed, avail)

    return rec(0, 0, (), ())


def blocking(S, qs):
    return any(S.proc[q]["blocking"] for q in qs)


# --- P04 capacity -------------------------------------------------------------------------
def capacity(T):
    S = T.sys
    for res, r in S.res.items():
        cap = r["capacity"]
        ev = []
        for x in T.of(res, "Production", "Transport"):
            if x.i1 is not None and x.i1 == x.i0:
                continue
            ev.append((x.i0, 1, x))
            ev.append((x.i1 if x.i1 is not None else INF, 0, x))
        ev.sort(key=lambda e: (e[0], e[1]))
        run = []
        for _, kind, x in ev:
            if kind == 0:
                run.remove(x)
                continue
            run.append(x)
            if len(run) > cap:
                yield "over-capacity", f"{res} (capacity {cap}) runs {len(run)} at t={x.start:g}: {run}"
                break
            same = [y for y in run if y.state == x.state]
            pc = S.proc_capacity(res, x.state)
            if len(same) > pc:
                yield "over-process-capacity", f"{res} runs process {x.state} (capacity {pc}) {len(same)} times at t={x.start:g}: {same}"
                break
        if res in S.machines:
            ev = []
            for item, t0, t1, s0, s1 in T.possession(res):
                ev.append((s0, 1, t0))
                if s1 is not None:
                    ev.append((s1, 0, t1))
            if r.get("batch_size"):  # a batch is handed over in several steps of one instant
                ev.sort(key=lambda e: (e[2], e[1]))
            else:
                ev.sort(key=lambda e: (e[0], e[1]))
            n = 0
            for _, kind, t in ev:
                n += 1 if kind else -1
                if n > cap:
                    yield "over-possession", f"{res} (capacity {cap}) holds {n} products at t={t:g}"
                    break


# --- P05 queues / item location automaton ---------------------------------------------------
def queues(T):
    S = T.sys
    for q, sn in T.snaps.items():
        cap = S.qcap(q)
        for step, t, ids in sn:
            if len(ids) > cap:
                yield "queue-overflow", f"queue {q} (capacity {cap:g}) holds {len(ids)} items at t={t:g}: {list(ids)}"
                break
            if len(ids) != len(set(ids)):
                yield "queue-duplicate", f"queue {q} holds an item twice at t={t:g}: {list(ids)}"
                break
    for item, mv in T.moves.items():
        aux = S.is_aux(item)
        if aux:
            continue  # auxiliaries have their own oracle
        where = None
        held = None  # (queue left, step, time)
        for step, t, k, q in mv:
            own = S.qowner.get(q)
            if own is None:
                yield "unknown-queue", f"item {item} in queue {q} without an owner"
                return
            if k == "enter":
                if where is not None:
                    yield "two-queues", f"item {item} enters {q} at t={t:g} while still in {where}"
                    break
                if held is None:
                    ok = own[1] == "source" if not aux else own[1] == "store"
                    if not ok:
                        yield "appears", f"item {item} appears in {q} at t={t:g} out of nowhere"
                        break
                    if not aux and S.source[own[0]]["product_type"] != S.ptype_of(item):
                        yield "appears", f"item {item} appears at source {own[0]} of another type"
                        break
                else:
                    m = check_move(T, S, item, aux, held, (q, step, t))
                    if m:
                        yield m
                        break
                where, held = q, None
            else:
                if where != q:
                    yield "leaves-elsewhere", f"item {item} leaves {q} at t={t:g} but was in {where}"
                    break
                if own[1] == "sink":
                    yield "leaves-sink", f"item {item} leaves sink queue {q} at t={t:g}"
                    break
                where, held = None, (q, step, t)
    for p, r in T.finished.items():
        n = sum(1 for q, ids in T.final.items() for i in ids if i == p and S.qowner.get(q, (0, 0))[1] == "sink")
        if n != 1:
            yield "not-in-sink", f"finished product {p} is in {n} sink queues"
    for p, r in T.created.items():
        if p not in T.moves:
            yield "never-queued", f"product {p} created at t={r.t:g} never was in a queue"


def check_move(T, S, item, aux, held, dest):
    """an item left queue held[0] and now enters dest[0]: who carried it?"""
    q0, s0, t0 = held
    q1, s1, t1 = dest
    o0, o1 = S.qowner[q0], S.qowner[q1]
    if o0[1] == "in":
        if o1 != (o0[0], "out"):
            return "misrouted", f"item {item} left the input queue of {o0[0]} at t={t0:g} and entered {q1} at t={t1:g}"
        ex = [x for x in T.prod_exs(item, "Production") if x.res == o0[0] and x.s0 >= s0 and x.s1 is not None and x.s1 <= s1]
        if len(ex) != 1:
            return "unprocessed", f"item {item} passed through {o0[0]} between t={t0:g} and t={t1:g} with {len(ex)} executions: {ex}"
        return None
    ex = [x for x in T.prod_exs(item, "Transport") if x.empty is False and x.s0 >= s0 and x.s1 is not None and x.s1 <= s1]
    ex.sort(key=lambda x: x.i0)
    if not ex:
        if o0[0] == o1[0] and T.run.requests_lost:
            return None
        if o0[0] == o1[0] and any(q["prod"] == item and q["kind"] == "transport" and q["origin"] == o0[0] and degenerate(S, q) for q in T.run.requests):
            return None
        return "teleport", f"item {item} moved from {q0} (t={t0:g}) to {q1} (t={t1:g}) without a transport"
    if len({x.res for x in ex}) != 1:
        return "relay", f"item {item} moved from {q0} to {q1} by several vehicles: {ex}"
    if ex[-1].target != o1[0]:
        return "wrong-delivery", f"item {item} was transported to {ex[-1].target} but entered {q1} of {o1[0]} at t={t1:g}"
    if ex[0].origin not in (o0[0], "Loading station"):
        return "wrong-pickup", f"item {item} left {q0} of {o0[0]} but its transport starts at {ex[0].origin}"
    for a, b in zip(ex, ex[1:]):
        if a.target != b.origin:
            return "leg-gap", f"item {item}: leg {b!r} does not continue {a!r}"
    if o1[1] == "out" or o1[1] == "source":
        return "misrouted", f"item {item} was delivered into {q1}"
    if o1[1] in ("in",):
        pass
    return None


# --- P06 no work while down -----------------------------------------------------------------
def breakdown(T):
    S = T.sys
    for res in S.res:
        exs = T.of(res, "Production", "Transport", "Setup")
        if not exs:
            continue
        bd_all = list(T.bd.get(res, ()))
        cache = {}
        for x in exs:
            key = ("S",) if x.stype == "Setup" else (x.state,)
            if key not in cache:
                own = bd_all + (T.pbd_any.get(res, []) if x.stype == "Setup" else T.pbd.get((res, x.state), []))
                cache[key] = (merge(own), [a for a, b in own], own)
            dn, starts, raw = cache[key]
            for a, b in x.segs:
                if b > a and overlap(a, b, dn) > TOL:
                    yield "works-while-down", f"{x!r} runs in [{a:g},{b:g}] while {res} is down {[(u, v) for u, v in dn if v > a and u < b]}"
                    break
            for k, (a, b) in enumerate(x.intr):
                if not any(near(a, s) for s in starts):
                    yield "spurious-interrupt", f"{x!r} is interrupted at t={a:g} but no applicable breakdown of {res} starts then"
                    break
                cover = [v for u, v in dn if u <= a + TOL and v >= a - TOL]
                upto = max(cover) if cover else a
                closed = k < len(x.segs) - 1
                if closed and b < upto - TOL and not any(u < b - TOL and v > b + TOL for u, v in raw):
                    continue  # up for an instant: one breakdown ends exactly when the next one starts
                if closed and not near(b, upto):
                    yield "late-resume", f"{x!r} interrupted at t={a:g} resumes at t={b:g}, {res} is up again at t={upto:g}"
                    break
                if not closed and upto + TOL < T.end_time and not T.run.exc:
                    yield "never-resumed", f"{x!r} interrupted at t={a:g} is not resumed although {res} is up since t={upto:g} (run ends {T.end_time:g})"
                    break


# --- P07 preempt-resume -----------------------------------------------------------------------
def resume(T):
    for x in T.exs:
        if x.stype not in ("Production", "Transport", "Setup", "Charging"):
            continue
        if x.first_exp is None:
            continue
        planned = x.first_exp - x.start
        w = x.work()
        if not x.open:
            if not near(w, planned):
                yield "work-lost" if w < planned else "work-redone", f"{x!r} was planned for {planned:g} but ran {w:g} in {x.segs}"
        elif w > planned + TOL * max(1.0, T.end_time):
            yield "overrun", f"{x!r} was planned for {planned:g} but has run {w:g} without ending: {x.segs}"


# --- P08 fault process ------------------------------------------------------------------------
def renewal(T):
    S = T.sys
    for res, r in S.res.items():
        for sid in r["state_ids"]:
            st = S.state[sid]
            if st["type"] not in ("BreakDownState", "ProcessBreakDownState"):
                continue
            fm, rm = S.tm_values(st["time_model_id"]), S.tm_values(st["repair_time_model_id"])
            if fm[0] not in ("sched", "const") or rm[0] not in ("sched", "const"):
                continue
            obs = [x for x in T.of(res, "Breakdown", "ProcessBreakdown") if x.state == sid]
            t, k = 0.0, 0
            lim = T.end_time - (TOL if not T.run.exc else 1e9)
            while k < len(obs) or True:
                g = seqval(fm, k)
                d = seqval(rm, k)
                if g is None or d is None:
                    if k < len(obs):
                        yield "extra-breakdown", f"{obs[k]!r} although the schedule of {sid} has only {k} breakdowns"
                    break
                s = t + g
                e = s + d
                if k >= len(obs):
                    if s < lim:
                        yield "missing-breakdown", f"breakdown {k + 1} of {sid} on {res} is due at t={s:g} but never occurs (run ends {T.end_time:g})"
                    break
                if not near(obs[k].start, s):
                    yield "breakdown-time", f"breakdown {k + 1} of {sid} on {res} starts at t={obs[k].start:g}, due at t={s:g}"
                    break
                if obs[k].end is None:
                    if e < lim:
                        yield "breakdown-too-long", f"breakdown {k + 1} of {sid} on {res} has not ended, due at t={e:g}"
                    break
                if not near(obs[k].end, e):
                    yield "repair-time", f"breakdown {k + 1} of {sid} on {res} lasts {obs[k].end - obs[k].start:g}, repair time is {d:g}"
                    break
                t = obs[k].end
                k += 1


def seqval(m, k):
    kind, v, cyc = m
    if kind == "const":
        return v
    if k < len(v):
        return v[k]
    return v[k % len(v)] if cyc else None


# --- P09 setups -------------------------------------------------------------------------------
def setups(T):
    S = T.sys
    for res, r in S.machines.items():
        table = {}
        for sid in r["state_ids"]:
            st = S.state[sid]
            if st["type"] == "SetupState":
                table[(st["origin_setup"], st["target_setup"])] = sid
        rows = sorted(T.of(res, "Production", "Setup"), key=lambda x: x.i0)
        if not table:
            if any(x.stype == "Setup" for x in rows):
                yield "unknown-setup", f"{res} has no setups but logs one"
            continue
        for x in rows:
            if x.stype == "Setup":
                for y in rows:
                    if y.stype == "Production" or (y is not x and y.stype == "Setup"):
                        for a, b in x.segs:
                            for c, d in y.segs:
                                if min(b, d) - max(a, c) > TOL:
                                    yield "setup-overlap", f"{x!r} runs in parallel with {y!r}"
                                    return
        if r["capacity"] != 1 or r["controller"] == "BatchController":
            continue
        cur = None
        pend = []
        for x in rows:
            if x.stype == "Setup":
                pend.append(x)
                continue
            need = None
            if cur is not None and cur != x.state:
                need = table.get((cur, x.state))
            want = [need] if need else []
            got = [p.state for p in pend]
            if got != want:
                yield ("missing-setup" if need and not got else "wrong-setup"), f"{res}: {cur} -> {x.state} for {x!r} needs setups {want}, performed {got}"
                break
            for p in pend:
                if p.end is None or p.end > x.start + TOL:
                    yield "setup-not-finished", f"{x!r} starts before {p!r} ended"
                    break
            pend = []
            if need or cur is None:
                cur = x.state  # a change without a configured setup leaves the machine's setup as it is
        if len(pend) > 1:
            yield "wrong-setup", f"{res}: several setups {pend} without a process between them"


def degenerate(S, q):
    """over links, a transport from a place to itself has no loaded leg."""
    return q["origin"] == q["target"] and S.proc.get(q["proc"], {}).get("type") == "LinkTransportProcesses"


def skip_degenerate(S, g, x):
    while len(g) > 1 and degenerate(S, g[0]) and g[1]["step"] <= x.s0:
        g.pop(0)


def way(S, v, legs):
    """one drive (empty or loaded) of a vehicle: direct, or over existing links and on a shortest way."""
    if not legs:
        return None
    p = S.proc[legs[0].state]
    if p["type"] != "LinkTransportProcesses":
        if len(legs) > 1:
            return "detour", f"vehicle {v} drives {[(x.origin, x.target) for x in legs]} for one transport without links"
        return None
    links = {(a, b) for a, b in p["links"]} | {(b, a) for a, b in p["links"]}
    places = sorted({a for l in links for a in l})

    def d(a, b):
        return ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** 0.5

    for n, x in enumerate(legs):
        if n == 0 and x.origin == "Loading station":
            start = S.res[v]["location"]
            best = min(d(start, S.loc(y)) for y in places)
            if x.target not in places or d(start, S.loc(x.target)) > best + TOL:
                return "not-nearest", f"vehicle {v} enters the network at {x.target}, {d(start, S.loc(x.target)) if x.target in places else -1:g} away, another place is {best:g} away"
        elif (x.origin, x.target) not in links and x.origin != x.target:
            return "no-link", f"vehicle {v} drives from {x.origin} to {x.target}, which are not linked ({x!r})"
    if any(S.loc(y, "in") != S.loc(y) or S.loc(y, "out") != S.loc(y) for y in places):
        return None  # the length of a way depends on where in a machine it passes
    if legs[0].origin == "Loading station":
        legs = legs[1:]
    if not legs:
        return None
    length = sum(d(S.loc(x.origin), S.loc(x.target)) for x in legs)
    best = {legs[0].origin: 0.0}
    todo = set(places)
    while todo:
        y = min((z for z in todo if z in best), key=best.get, default=None)
        if y is None:
            break
        todo.discard(y)
        for a, b in links:
            if a == y:
                w = best[y] + d(S.loc(a), S.loc(b))
                if w < best.get(b, 1e18):
                    best[b] = w
    last = legs[-1].target
    if last in best and length > best[last] + 1e-6:
        return "not-shortest", f"vehicle {v} drives {[x.origin for x in legs] + [last]}, {length:g} long, the shortest way is {best[last]:g} long"
    return None


# --- P10 vehicle continuity ---------------------------------------------------------------------
def transport(T):
    S = T.sys
    for v in S.vehicles:
        ex = sorted(T.of(v, "Transport"), key=lambda x: x.i0)
        pos = None
        task = None
        for x in ex:
            o = None if x.origin == "Loading station" else x.origin
            if (pos is None) != (o is None) or (o is not None and o != pos):
                yield "vehicle-jump", f"vehicle {v} is at {pos or 'its start'} but {x!r} starts at {x.origin}"
                break
            pos = x.target
        # product carried: between pick up and delivery only legs of that product
        carrying = None
        for x in ex:
            if x.empty is False:
                carrying = x
        if T.run.requests_lost:
            continue
        # the vehicle serves one transport request at a time: legs grouped by request
        reqs = [q for q in T.run.requests if q["kind"] == "transport" and q["res"] == v]
        groups = defaultdict(list)
        for q in reqs:
            groups[q["prod"]].append(q)
        i = 0
        while i < len(ex):
            p = ex[i].prod
            skip_degenerate(S, groups[p], ex[i])
            if groups[p] and degenerate(S, groups[p][0]):
                j = i
                while j < len(ex) and ex[j].prod == p and ex[j].empty and (len(groups[p]) < 2 or groups[p][1]["step"] > ex[j].s0):
                    j += 1
                if j == i:
                    yield "fetch-elsewhere", f"vehicle {v} carries {p} in {ex[i]!r} although it is to stay at {groups[p][0]['origin']}"
                    break
                if j < len(ex) and ex[j - 1].target != groups[p][0]["origin"]:
                    yield "fetch-elsewhere", f"vehicle {v} fetches {p} at {ex[j - 1].target}, it waits at {groups[p][0]['origin']}"
                    break
                groups[p].pop(0)
                i = j
                continue
            j = i
            while j < len(ex) and ex[j].prod == p and ex[j].empty:
                j += 1
            k = j
            # loaded legs up to a requested target
            tgt = None
            while k < len(ex) and ex[k].prod == p and not ex[k].empty:
                k += 1
                g = groups[p]
                if g and ex[k - 1].target == g[0]["target"]:
                    tgt = g.pop(0)
                    break
            if tgt is None:
                if k < len(ex):
                    yield "abandoned", f"vehicle {v} starts {ex[k]!r} although the transport of {p} begun with {ex[i]!r} has not reached its target"
                break
            legs = ex[i:k]
            bad = way(S, v, ex[i:j]) or way(S, v, ex[j:k])
            if bad:
                yield bad
                break
            if j > i and ex[j - 1].target != tgt["origin"]:
                yield "fetch-elsewhere", f"vehicle {v} fetches {p} at {ex[j - 1].target}, it waits at {tgt['origin']}"
                break
            if ex[j].origin != tgt["origin"]:
                yield "fetch-elsewhere", f"vehicle {v} loads {p} at {ex[j].origin}, it waits at {tgt['origin']}"
                break
            i = k


# --- P11 transport durations ----------------------------------------------------------------------
def transport_times(T):
    S = T.sys
    if T.run.requests_lost:
        return
    for v, r in S.vehicles.items():
        pos = list(r["location"])
        ex = sorted(T.of(v, "Transport"), key=lambda x: x.i0)
        reqs = defaultdict(list)
        for q in T.run.requests:
            if q["kind"] == "transport" and q["res"] == v:
                reqs[q["prod"]].append(q)
        loadseq = defaultdict(int)
        i = 0
        newtask = True
        for n, x in enumerate(ex):
            pd = S.proc[x.state]
            g = reqs[x.prod]
            skip_degenerate(S, g, x)
            if not g:
                yield "unrequested", f"{x!r} was not requested"
                break
            q = g[0]
            first = n == 0 or ex[n - 1].prod != x.prod or ex[n - 1].empty != x.empty or newtask
            last = x.target == (q["origin"] if x.empty else q["target"])
            tl = S.loc(x.target)
            if last:
                tl = S.loc(x.target, "out" if x.empty else "in")
            k, m, _ = S.tm_values(pd["time_model_id"])
            if k == "dist":
                d = S.dist(pos, tl, m["metric"]) / m["speed"] + m["reaction_time"]
            elif k == "const":
                d = m
            else:
                pos = tl
                continue
            ok = True
            if not x.empty and first and pd.get("loading_time_model_id"):
                lv = S.tm_values(pd["loading_time_model_id"])
                ok = lv[0] == "const"
                d += lv[1] if ok else 0
            if not x.empty and last and pd.get("unloading_time_model_id"):
                lv = S.tm_values(pd["unloading_time_model_id"])
                ok = ok and lv[0] == "const"
                d += lv[1] if ok else 0
            got = x.first_exp - x.start
            if ok and not near(got, d):
                yield "transport-time", f"{x!r}: {pos} to {tl} takes {d:g} by its time model, planned {got:g}"
                break
            pos = tl
            newtask = False
            if last and (not x.empty or degenerate(S, q)):
                g.pop(0)
                newtask = True


AUX_ACTS = ("created auxiliary", "started auxiliary usage", "finished auxiliary usage")


# --- P18 log ----------------------------------------------------------------------------------------
def log(T):
    S = T.sys
    for _, m in T.errors:
        yield "grammar", m
    prev = 0.0
    kinds = {"Breakdown": "BreakDownState", "ProcessBreakdown": "ProcessBreakDownState", "Setup": "SetupState", "Charging": "ChargingState"}
    for r in T.run.rows:
        if r.t is None or r.t < prev - 1e-12:
            yield "time-order", f"row {r.i} at t={r.t} follows a row at t={prev}: {r.brief()}"
            break
        prev = r.t
        if abs(r.t - r.now) > 1e-9:
            yield "wrong-time", f"row {r.i} was logged at simulated time {r.now:g}: {r.brief()}"
            break
        if r.t > T.run.horizon + TOL:
            yield "beyond-horizon", f"row {r.i} after the end of the run: {r.brief()}"
            break
        if r.act in AUX_ACTS:
            continue
        if r.stype in kinds:
            st = S.state.get(r.state)
            if st is None or st["type"] != kinds[r.stype] or r.res not in S.res or r.state not in S.res[r.res]["state_ids"]:
                yield "wrong-attribution", f"row {r.i}: {r.brief()}"
                break
        elif r.stype in ("Production", "Transport"):
            if r.res not in S.res or r.state not in S.res[r.res]["process_ids"] or not r.prod:
                yield "wrong-attribution", f"row {r.i}: {r.brief()}"
                break
            if (r.stype == "Transport") != (r.res in S.vehicles):
                yield "wrong-attribution", f"row {r.i}: {r.brief()}"
                break
            if r.stype == "Transport" and (not r.target or not r.origin or r.empty not in (True, False)):
                yield "transport-fields", f"row {r.i}: {r.brief()}"
                break
        if r.act in ("start state", "end interrupt"):
            if r.exp is None or r.exp < r.t - TOL:
                yield "expected-end", f"row {r.i}: expected end {r.exp} lies before the row: {r.brief()}"
                break
    for x in T.exs:
        if x.stype in ("Production", "Transport", "Setup", "Breakdown", "ProcessBreakdown", "Charging") and not x.open and x.exp:
            if not near(x.exp[-1], x.end):
                yield "expected-end", f"{x!r} ended at t={x.end:g} but its last announced end was t={x.exp[-1]:g}"
                break
    if T.run.truncated is False and T.run.completed:
        pass


# --- P23 arrivals -------------------------------------------------------------------------------------
def arrivals(T):
    S = T.sys
    bysrc = defaultdict(list)
    for p, r in T.created.items():
        bysrc[r.res].append(r)
    lim = T.end_time - (TOL if not T.run.exc else 1e9)
    for sid, s in S.source.items():
        m = S.tm_values(s["time_model_id"])
        got = sorted(bysrc.get(sid, []), key=lambda r: r.i)
        if any(S.qcap(q) < INF for q in s["output_queues"]):
            continue
        if m[0] not in ("sched", "const"):
            continue
        t, k = 0.0, 0
        while True:
            g = seqval(m, k)
            if g is None or g <= 0:
                if k < len(got):
                    yield "extra-arrival", f"source {sid} releases {got[k].prod} at t={got[k].t:g} beyond its {k} scheduled arrivals"
                break
            t += g
            if k >= len(got):
                if t < lim:
                    yield "missing-arrival", f"source {sid}: arrival {k + 1} is due at t={t:g} but never happens (run ends {T.end_time:g})"
                break
            if not near(got[k].t, t):
                yield "arrival-time", f"source {sid}: arrival {k + 1} ({got[k].prod}) happens at t={got[k].t:g}, due at t={t:g}"
                break
            k += 1


# --- P12 global progress ---------------------------------------------------------------------------------
def progress(T, expect_drain=True):
    S = T.sys
    run = T.run
    if run.exc or run.livelock:
        return
    unfinished = [p for p in T.created if p not in T.finished]
    # busy: any execution open/any breakdown anywhere
    iv = []
    for x in T.exs:
        e = x.end if x.end is not None else T.end_time
        if e > x.start:
            iv.append((x.start, e))
    iv = merge(iv)
    if not unfinished and not T.finished:
        return
    spans = []
    for p, r in T.created.items():
        spans.append((r.t, T.finished[p].t if p in T.finished else T.end_time))
    for a, b in merge(spans):
        for u, v in subtract(a, b, iv):
            open_ = [p for p, r in T.created.items() if r.t <= u + TOL and (p not in T.finished or T.finished[p].t >= v - TOL)]
            yield "stalled", f"nothing happens in [{u:g},{v:g}] although products {open_[:6]} are unfinished and no resource is down"
            return




# --- P13 work conservation of single resources ---------------------------------------------------------
def steps_of(changes):
    """[(t, delta or value)] -> nothing fancy: last value per instant, as a sorted list [(t, v)]."""
    out = []
    for t, v in changes:
        if out and out[-1][0] == t:
            out[-1] = (t, v)
        else:
            out.append((t, v))
    return out


def timeline(parts, end):
    """joins several step functions [(t, v)] into [(t0, t1, (v, ...))] over intervals of positive length."""
    ts = sorted({t for p in parts for t, _ in p} | {end})
    idx = [0] * len(parts)
    val = [None] * len(parts)
    for a, b in zip(ts, ts[1:]):
        for k, p in enumerate(parts):
            while idx[k] < len(p) and p[idx[k]][0] <= a:
                val[k] = p[idx[k]][1]
                idx[k] += 1
        if b > a + TOL:
            yield a, b, tuple(val)


def work_conserving(T, stats=None):
    S = T.sys
    if T.run.exc or T.run.livelock:
        return
    end = T.end_time
    waited = 0
    for m, r in S.machines.items():
        if r.get("batch_size") or any(S.state[s]["type"] == "ChargingState" for s in r["state_ids"]):
            continue
        has_setup = any(S.state[s]["type"] == "SetupState" for s in r["state_ids"])
        if has_setup and r["capacity"] > 1:
            continue
        qs = [q for q in r["input_queues"] if q not in S.stores]
        ev, n, held = [], 0, set()
        for item, t0, t1, s0, s1 in T.possession(m):
            ev.append((t0, s0, 1, item))
            if t1 is not None:
                ev.append((t1, s1, 0, item))
        ev.sort(key=lambda e: e[:3])
        poss = []
        for t, _, k, item in ev:
            held = (held | {item}) if k else (held - {item})
            poss.append((t, frozenset(held)))
        parts = [steps_of(poss)] + [steps_of([(t, ids) for _, t, ids in T.snaps.get(q, [])]) for q in qs]
        off = T.down(m, setup=has_setup)
        off = merge([tuple(x) for x in off] + [(x.start, x.end if x.end is not None else end) for x in T.of(m, "Setup")])
        for a, b, v in timeline(parts, end):
            waiting = [i for ids in v[1:] for i in (ids or ())]
            if not waiting:
                continue
            waited += 1
            if len(v[0] or ()) >= r["capacity"]:
                continue
            for x, y in subtract(a, b, off):
                yield "idle-machine", f"{m} (capacity {r['capacity']}) holds {sorted(v[0] or ())} in [{x:g},{y:g}] although {waiting} wait in its input queue and it is up"
                return
    if not T.run.requests_lost:
        for v, r in S.vehicles.items():
            if any(S.state[s]["type"] == "ChargingState" for s in r["state_ids"]):
                continue
            ex = sorted(T.of(v, "Transport"), key=lambda x: x.i0)
            off = merge([tuple(x) for x in T.down(v)] + [(x.start, x.end if x.end is not None else end) for x in ex])
            byp = defaultdict(list)
            for x in ex:
                byp[x.prod].append(x)
            for q in T.run.requests:
                if q["kind"] != "transport" or q["res"] != v or degenerate(S, q):
                    continue
                st = next((x.start for x in byp[q["prod"]] if x.s0 >= q["step"]), end)
                if st > q["t"] + TOL:
                    waited += 1
                for x, y in subtract(q["t"], st, off):
                    yield "idle-vehicle", f"vehicle {v} is idle in [{x:g},{y:g}] although it is asked to carry {q['prod']} from {q['origin']} to {q['target']} since t={q['t']:g}"
                    return
    T.waited = waited


# --- P14 sequencing policies ------------------------------------------------------------------------------
def policies(T):
    S = T.sys
    if T.run.exc or T.run.livelock or T.run.requests_lost:
        return
    judged = 0
    for m, r in S.machines.items():
        if r.get("batch_size") or any(S.state[s]["type"] == "ChargingState" for s in r["state_ids"]):
            continue
        if len([q for q in r["input_queues"] if q not in S.stores]) != 1:
            continue
        pol = r["control_policy"]
        su = sorted(T.of(m, "Setup"), key=lambda x: x.i0)
        if su and r["capacity"] > 1:
            continue
        reqs = defaultdict(list)  # product -> its production requests at this machine, in order
        order = []
        for n, q in enumerate(T.run.requests):
            if q["kind"] == "production" and q["res"] == m:
                e = dict(t=q["t"], n=n, prod=q["prod"], proc=q["proc"], start=None, dec=None)
                reqs[q["prod"]].append(e)
                order.append(e)
        prev = 0.0
        down = merge([tuple(x) for x in T.down(m, setup=True)]) if su else []
        for item, t0, t1, s0, s1 in T.possession(m):
            e = next((e for e in reqs[item] if e["start"] is None), None)
            if e is None:
                yield "unrequested-start", f"{m} takes {item} at t={t0:g} without an open request"
                return
            e["start"] = t0
            # the decision falls into the instant in which the setup for it began
            dec = t0
            for x in su:
                if x.end is not None and near(x.end, t0) and x.start >= prev - TOL:
                    dec = min(dec, x.start)
                elif x.end is not None and x.start >= prev - TOL and x.end <= t0 + TOL:
                    dec = min(dec, x.start)
            if su:
                # a setup that was decided during a downtime only starts after it
                for u, v in down:
                    if u < dec - TOL and dec <= v + TOL:
                        dec = max(prev, u)
            e["dec"] = dec
            prev = t1 if t1 is not None else t0
        for e in order:
            if e["start"] is None:
                continue
            for f in order:
                if f is e or f["t"] >= e["dec"] - TOL:
                    continue
                if f["dec"] is not None and f["dec"] <= e["dec"] + TOL:
                    continue
                # f waited since before the decision for e and was not chosen at that instant
                judged += 1
                bad = None
                if pol == "FIFO" and f["n"] < e["n"]:
                    bad = "was requested earlier"
                elif pol == "LIFO" and f["n"] > e["n"]:
                    bad = "was requested later"
                elif pol == "SPT":
                    a, b = (S.tm_expected(S.proc[x["proc"]]["time_model_id"]) for x in (e, f))
                    if a is not None and b is not None and b < a - TOL:
                        bad = f"has the shorter expected time {b:g} < {a:g}"
                if bad:
                    yield f"policy-{pol}", f"{m} ({pol}) decides at t={e['dec']:g} for {e['prod']} (requested t={e['t']:g}) although {f['prod']} (requested t={f['t']:g}) waits and {bad}"
                    return
    for x in batch_order(T):
        if isinstance(x, int):
            judged += x
        else:
            yield x
            return
    for v, r in S.vehicles.items():
        pol = r["control_policy"]
        if any(S.state[s]["type"] in ("ChargingState", "BreakDownState") for s in r["state_ids"]):
            continue
        reqs, order = defaultdict(list), []
        for n, q in enumerate(T.run.requests):
            if q["kind"] == "transport" and q["res"] == v:
                e = dict(q, n=n, start=None)
                reqs[q["prod"]].append(e)
                order.append(e)
        if any(degenerate(S, q) for q in order):
            continue
        done = set()
        pos = list(r["location"])
        cur = None
        for x in sorted(T.of(v, "Transport"), key=lambda x: x.i0):
            g = [e for e in reqs[x.prod] if id(e) not in done and e["step"] <= x.s0]
            if not g:
                break
            e = g[0]
            if e["start"] is None:
                e["start"], e["pos"] = x.start, pos
            last = x.target == (e["origin"] if x.empty else e["target"])
            pos = S.loc(x.target, ("out" if x.empty else "in") if last else None)
            if last and not x.empty:
                done.add(id(e))

        def dtime(a, b, e):
            k, m, _ = S.tm_values(S.proc[e["proc"]]["time_model_id"])
            if k != "dist":
                return S.tm_expected(S.proc[e["proc"]]["time_model_id"])
            return S.dist(a, b, m["metric"]) / m["speed"] + m["reaction_time"]

        for e in order:
            if e["start"] is None:
                continue
            for f in order:
                if f is e or f["t"] >= e["start"] - TOL or (f["start"] is not None and f["start"] <= e["start"] + TOL):
                    continue
                judged += 1
                bad = None
                if pol == "FIFO" and f["n"] < e["n"]:
                    bad = "was requested earlier"
                elif pol == "SPT_transport":
                    a, b = (dtime(S.loc(y["origin"], "out"), S.loc(y["target"], "in"), y) for y in (e, f))
                    if b < a - TOL:
                        bad = f"has the shorter transport {b:g} < {a:g}"
                elif pol.startswith("Nearest_origin"):
                    a, b = (dtime(e["pos"], S.loc(y["origin"], "out"), y) for y in (e, f))
                    if b < a - TOL:
                        bad = f"is nearer: {b:g} < {a:g}"
                    elif near(a, b) and e["target"] != f["target"]:
                        la, lb = (target_len(T, y["target"], e["start"], "longest" in pol) for y in (e, f))
                        if "longest" in pol and lb[0] > la[1]:
                            bad = f"is as near and its target's output queues are longer ({lb[0]} > {la[1]})"
                        elif "longest" not in pol and lb[1] < la[0]:
                            bad = f"is as near and its target's input queues are shorter ({lb[1]} < {la[0]})"
                if bad:
                    yield f"policy-{pol}", f"vehicle {v} ({pol}) decides at t={e['start']:g} to fetch {e['prod']} ({e['origin']}->{e['target']}, requested t={e['t']:g}) although {f['prod']} ({f['origin']}->{f['target']}, requested t={f['t']:g}) waits and {bad}"
                    return
    T.judged = judged


def batch_order(T):
    """Which orders form the next batch of a machine that works on one batch at a time.

    A batch is known to be decided when its last order has arrived, at the earliest; what arrives after that is only
    compared in the strict form, which the code does not fulfil (known finding batch-committed-early)."""
    S = T.sys
    strict = T.run.scn["meta"].get("strict_batches")
    for m, r in S.machines.items():
        b = r.get("batch_size")
        if not b or r["controller"] != "BatchController" or r["capacity"] != b or r["state_ids"]:
            continue
        if len([q for q in r["input_queues"] if q not in S.stores]) != 1:
            continue
        if len(set(r["process_ids"])) != len(r["process_ids"]):
            continue
        pol = r["control_policy"]
        order, reqs = [], defaultdict(list)
        for n, q in enumerate(T.run.requests):
            if q["kind"] == "production" and q["res"] == m:
                e = dict(t=q["t"], n=n, prod=q["prod"], proc=q["proc"], start=None)
                order.append(e)
                reqs[q["prod"]].append(e)
        for item, t0, t1, s0, s1 in T.possession(m):
            e = next((e for e in reqs[item] if e["start"] is None), None)
            if e is not None:
                e["start"] = t0

        def first(x, y):
            """x comes before y"""
            if pol == "FIFO":
                return x["n"] < y["n"]
            if pol == "LIFO":
                return x["n"] > y["n"]
            u, v = (S.tm_expected(S.proc[z["proc"]]["time_model_id"]) for z in (x, y))
            return u is not None and v is not None and u < v - TOL

        groups = defaultdict(list)
        for e in order:
            if e["start"] is not None:
                groups[round(e["start"], 6)].append(e)
        for t, g in sorted(groups.items()):
            full = t if strict else max(e["t"] for e in g)
            kind = "batch-committed-early" if strict else f"policy-{pol}"
            wait = [f for f in order if f["t"] < full - TOL and (f["start"] is None or f["start"] > t + TOL)]
            yield len(wait)
            for e in g:
                for f in wait:
                    if f["proc"] == e["proc"] and pol != "SPT" and first(f, e):
                        yield kind, f"{m} ({pol}, batches of {b}) takes {e['prod']} (requested t={e['t']:g}) into a batch at t={t:g} although {f['prod']} (requested t={f['t']:g}) waits for the same process"
                        return
            others = defaultdict(list)
            for f in wait:
                if all(f["proc"] != e["proc"] for e in g):
                    others[f["proc"]].append(f)
            if len(g) != b or len({e["proc"] for e in g}) != 1:
                continue
            own = g + [f for f in wait if f["proc"] == g[0]["proc"]]
            for q, fs in others.items():
                if len(fs) >= b and any(all(first(f, e) for e in own) for f in fs):
                    yield kind, f"{m} ({pol}, batches of {b}) starts {[e['prod'] for e in g]} at t={t:g} although a batch of {[f['prod'] for f in fs]} waits and comes first"
                    return


def target_len(T, ident, t, output):
    """(min, max) number of items in the output/input queues of a place during the instant t."""
    S = T.sys
    if ident in S.machines:
        qs = S.res[ident]["output_queues" if output else "input_queues"]
    elif ident in S.sink:
        return 0, 0
    elif ident in S.source:
        return (0, 10**9) if output else (0, 0)
    else:
        return 0, 10**9
    lo = hi = 0
    for q in qs:
        a, b = len_range(T, q, t)
        lo += a
        hi += b
    return lo, hi


def len_range(T, q, t):
    """(min, max) length of a queue over the instant t, including the value it had before."""
    before, vals = 0, []
    for _, u, ids in T.snaps.get(q, ()):
        if u < t - TOL:
            before = len(ids)
        elif u <= t + TOL:
            vals.append(len(ids))
        else:
            break
    vals.append(before)
    return min(vals), max(vals)


# --- P15 routing -------------------------------------------------------------------------------------------
def routing(T):
    """only for systems without bounded buffers: then no candidate is ever blocked."""
    S = T.sys
    if T.run.requests_lost:
        return
    judged = 0
    heur = {}
    for p, r in T.created.items():
        heur[p] = S.source[r.res]["routing_heuristic"] if r.res in S.source else None
    links = any(p["type"] == "LinkTransportProcesses" for p in S.proc.values())
    prods = defaultdict(list)
    for q in T.run.requests:
        if not q["aux"]:
            prods[q["prod"]].append(q)
    # open requests per vehicle over time
    pend = defaultdict(list)
    if not links:
        for v in S.vehicles:
            done = set()
            g = [q for q in T.run.requests if q["kind"] == "transport" and q["res"] == v]
            ex = sorted(T.of(v, "Transport"), key=lambda x: x.i0)
            for x in ex:
                c = [q for q in g if q["prod"] == x.prod and id(q) not in done and q["step"] <= x.s0]
                if not c:
                    break
                q = c[0]
                if not any(y[2] is q for y in pend[v]):
                    pend[v].append((q["t"], x.start, q))
                if x.target == q["target"] and not x.empty:
                    done.add(id(q))
            for q in g:
                if not any(y[2] is q for y in pend[v]):
                    pend[v].append((q["t"], INF, q))
    for p, qs in prods.items():
        h = heur.get(p)
        ent = S.plan(S.ptype_of(p))
        tp = S.ptype[S.ptype_of(p)]["transport_process"]
        for k, q in enumerate(qs):
            if q["kind"] == "production":
                pr = qs[k - 1] if k else None
                if pr is None or pr["kind"] != "transport" or pr["target"] != q["res"]:
                    yield "not-brought", f"{p} requests processing at {q['res']} at t={q['t']:g} but was brought to {pr['target'] if pr else None}"
                    return
                if q["proc"] not in S.res[q["res"]]["process_ids"]:
                    yield "incapable", f"{p} is routed to {q['res']} for {q['proc']}, which it does not offer"
                    return
                if S.proc[q["proc"]]["type"] == "ReworkProcesses":
                    caps = [m for m, r in S.machines.items() if q["proc"] in r["process_ids"]]
                elif ent[0] == "list":
                    e = next((e for e in dict.fromkeys(ent[1]) if S.serves(e, q["proc"])), None)
                    es = [e for e in dict.fromkeys(ent[1]) if S.serves(e, q["proc"])]
                    if len(es) != 1:
                        continue
                    caps = list(dict.fromkeys(m for m, _ in S.capable(es[0])))
                else:
                    es = [e for e in ent[1] if S.serves(e, q["proc"])]
                    if len(es) != 1:
                        continue
                    caps = list(dict.fromkeys(m for m, _ in S.capable(es[0])))
                if links or len(caps) < 2:
                    continue
                t = pr["t"]
                judged += 1
                if h == "FIFO" and q["res"] != caps[0]:
                    yield "routing-FIFO", f"{p} is routed to {q['res']} for {q['proc']} at t={t:g}; the first capable resource is {caps[0]}"
                    return
                if h == "shortest_queue":
                    mine = sum(len_range(T, x, t)[0] for x in S.res[q["res"]]["input_queues"])
                    for c in caps:
                        other = sum(len_range(T, x, t)[1] for x in S.res[c]["input_queues"])
                        if other < mine:
                            yield "routing-shortest-queue", f"{p} is routed to {q['res']} (queue >= {mine}) at t={t:g} although {c} has only {other} waiting"
                            return
            else:
                if links:
                    continue
                vs = [v for v, r in S.vehicles.items() if any(transport_ok(S, tp, x) for x in r["process_ids"])]
                if q["res"] not in vs:
                    yield "incapable", f"{p} is carried by {q['res']}, which does not offer {tp}"
                    return
                if len(vs) < 2:
                    continue
                judged += 1
                if h == "FIFO" and q["res"] != vs[0]:
                    yield "routing-FIFO", f"{p} asks {q['res']} for transport at t={q['t']:g}; the first capable vehicle is {vs[0]}"
                    return
                if h == "shortest_queue" and not any(S.state[s]["type"] in ("BreakDownState", "ChargingState") for v in vs for s in S.res[v]["state_ids"]):
                    t = q["t"]
                    mine = sum(1 for a, b, y in pend[q["res"]] if y is not q and a < t - TOL and b > t + TOL)
                    for c in vs:
                        other = sum(1 for a, b, y in pend[c] if a <= t + TOL and b >= t - TOL)
                        if other < mine:
                            yield "routing-shortest-queue", f"{p} asks {q['res']} (at least {mine} open requests) at t={t:g} although {c} has at most {other}"
                            return
    T.judged = judged


# --- P16 auxiliaries ------------------------------------------------------------------------------------------
def auxiliaries(T):
    S = T.sys
    if T.run.requests_lost or T.run.exc or T.run.livelock:
        return
    types = {a["auxiliary_type"]: a for a in S.aux.values()}
    stored = defaultdict(list)  # auxiliary -> its initial store, from the first snapshot of the stores
    for q, sn in T.snaps.items():
        if q in S.stores and sn and sn[0][0] == 0:
            for i in sn[0][2]:
                stored[i].append(q)
    want = defaultdict(int)
    for a in S.aux.values():
        for q, n in zip(a["storages"], a["quantity_in_storages"]):
            want[(a["auxiliary_type"], q)] += n
    have = defaultdict(int)
    for i, qs in stored.items():
        if len(qs) != 1:
            yield "aux-placement", f"auxiliary {i} starts in the storages {qs}"
            return
        have[(S.ptype_of(i), qs[0])] += 1
    if {k: v for k, v in want.items() if v} != dict(have):
        yield "aux-placement", f"auxiliaries per storage at the start: {dict(have)}, configured {dict(want)}"
        return
    # usage cycles of each auxiliary
    reqs = defaultdict(list)
    for q in T.run.requests:
        if q["aux"]:
            reqs[q["prod"]].append(q)
    firstreq = {}
    for q in T.run.requests:
        if not q["aux"] and q["prod"] not in firstreq:
            firstreq[q["prod"]] = q
    uses = []  # (aux, t_reserved, t_delivered|None, source, t_return_requested|None, t_back|None)
    for a, qs in reqs.items():
        if a not in stored:
            yield "aux-unknown", f"auxiliary {a} is moved but was in no storage"
            return
        home = stored[a][0]
        legs = sorted((x for x in T.prod_exs(a, "Transport") if not x.empty), key=lambda x: x.i0)
        li = 0
        cur = None
        for k, q in enumerate(qs):
            fetch = k % 2 == 0
            end = None
            while li < len(legs):
                x = legs[li]
                if x.s0 < q["step"]:
                    yield "aux-moved", f"{x!r} moves auxiliary {a} without a request"
                    return
                if k + 1 < len(qs) and x.s0 >= qs[k + 1]["step"]:
                    break
                li += 1
                if x.target == q["target"]:
                    end = x.end
                    break
            if fetch:
                if q["origin"] != home or q["target"] not in S.source:
                    yield "aux-fetch", f"auxiliary {a} (stored in {home}) is requested from {q['origin']} to {q['target']} at t={q['t']:g}"
                    return
                cur = [a, q["t"], end, q["target"], None, None]
                uses.append(cur)
            else:
                if cur[2] is None:
                    yield "aux-return", f"auxiliary {a} is returned at t={q['t']:g} before it was delivered"
                    return
                if q["target"] != home or q["origin"] not in S.sink:
                    yield "aux-return", f"auxiliary {a} (home {home}) is returned from {q['origin']} to {q['target']} at t={q['t']:g}"
                    return
                cur[4], cur[5] = q["t"], end
    # the log tells when which auxiliary is in use
    rows = defaultdict(list)
    for r in T.aux_rows:
        rows[r.prod].append(r)
    for a, qs in stored.items():
        got = [(r.act, r.t, r.res) for r in rows[a] if r.t < T.end_time - TOL]
        ref = [("created auxiliary", 0.0, qs[0])]
        for u in uses:
            if u[0] == a:
                ref += [("started auxiliary usage", u[1], qs[0])] + ([("finished auxiliary usage", u[5], qs[0])] if u[5] is not None else [])
        ref = [x for x in ref if x[1] < T.end_time - TOL]
        if len(got) != len(ref) or any(x[0] != y[0] or x[2] != y[2] or not near(x[1], y[1]) for x, y in zip(got, ref)):
            yield "aux-log", f"the log tells of auxiliary {a}: {got[:8]}, it was used {ref[:8]}"
            return
    # each product that needs an auxiliary is served by exactly one
    for ty, a in types.items():
        users = [p for p in T.created if ty in S.ptype[S.ptype_of(p)]["auxiliaries"]]
        mine = [u for u in uses if S.ptype_of(u[0]) == ty]
        n = sum(a["quantity_in_storages"])
        started = sorted((firstreq[p]["t"], p) for p in users if p in firstreq)
        deliv = sorted(u[2] for u in mine if u[2] is not None)
        # starts match deliveries one to one, at the same instant, at the same source
        bounded = any(q["capacity"] for q in S.queue.values())  # a product may have to wait for room downstream
        for src in S.source:
            ss = sorted(firstreq[p]["t"] for p in users if p in firstreq and T.created[p].res == src)
            ds = sorted(u[2] for u in mine if u[3] == src and u[2] is not None and u[2] < T.end_time - TOL)
            if len(ss) > len(ds) or any(x < y - TOL for x, y in zip(ss, ds)) or (not bounded and (len(ss) != len(ds) or any(not near(x, y) for x, y in zip(ss, ds)))):
                yield "aux-start", f"products at {src} start moving at {ss[:8]} but auxiliaries of type {ty} are delivered there at {ds[:8]}"
                return
        fin = sorted((T.finished[p].t, T.finished[p].res) for p in users if p in T.finished)
        ret = sorted((u[4], None) for u in mine if u[4] is not None)
        if [x for x, _ in fin] != [x for x, _ in ret] and any(not near(x[0], y[0]) for x, y in zip(fin, ret)) or len(fin) != len(ret):
            yield "aux-release", f"products with auxiliary {ty} finish at {[x for x, _ in fin][:8]}, auxiliaries leave at {[x for x, _ in ret][:8]}"
            return
        # never more users than auxiliaries, never waiting while one is free
        ev = [(u[1], 1) for u in mine] + [(u[5], -1) for u in mine if u[5] is not None]
        busy = steps_of(acc(sorted(ev)))
        wait = steps_of(acc(sorted([(T.created[p].t, 1) for p in users] + [(u[1], -1) for u in mine])))
        for x, y, (b, w) in timeline([[(0.0, 0)] + busy, [(0.0, 0)] + wait], T.end_time):
            if b > n:
                yield "aux-shared", f"{b} auxiliaries of type {ty} are in use in [{x:g},{y:g}], only {n} exist"
                return
            if w > 0 and b < n:
                yield "aux-idle", f"in [{x:g},{y:g}] {w} products wait for an auxiliary of type {ty} although {n - b} are free"
                return
            if w < 0:
                yield "aux-unneeded", f"in [{x:g},{y:g}] more auxiliaries of type {ty} were fetched than products asked for"
                return
    T.uses = len(uses)


def acc(ev):
    n, out = 0, []
    for t, d in ev:
        n += d
        out.append((t, n))
    return out


# --- P17 batches ------------------------------------------------------------------------------------------------
def batches(T):
    S = T.sys
    if T.run.livelock:
        return
    n = 0
    for m, r in S.machines.items():
        b = r.get("batch_size")
        if not b or r["controller"] != "BatchController":
            continue
        ex = sorted(T.of(m, "Production"), key=lambda x: (x.start, x.i0))
        zero = any(x.i0 == x.i1 for x in ex)
        groups = []
        for x in ex:
            if groups and near(groups[-1][0].start, x.start):
                groups[-1].append(x)
            else:
                groups.append([x])
        for g in groups:
            if len(g) % b:
                yield "batch-size", f"{m} (batch size {b}) starts {len(g)} products at t={g[0].start:g}: {[(x.prod, x.state) for x in g]}"
                return
            by = defaultdict(list)
            for x in g:
                by[x.state].append(x)
            for s, xs in by.items():
                if len(xs) % b:
                    yield "batch-mixed", f"{m} (batch size {b}) mixes processes in a batch at t={g[0].start:g}: {[(x.prod, x.state) for x in g]}"
                    return
                ends = defaultdict(int)
                for x in xs:
                    ends[None if x.end is None else round(x.end, 6)] += 1
                cut = {round(i[0], 6) for x in xs for i in x.intr}  # a breakdown may fall between two ends of one instant
                if cut & set(ends):
                    n += len(xs) // b
                    continue
                for e, c in ends.items():
                    if c % b:
                        yield "batch-split", f"products of one batch on {m} started at t={xs[0].start:g} end at different times: {[(x.prod, x.end) for x in xs]}"
                        return
                n += len(xs) // b
        # progress: a full batch of one process waits at an idle machine
        if not T.run.exc and not T.run.requests_lost and not r["state_ids"]:
            reqs = defaultdict(list)
            for q in T.run.requests:
                if q["kind"] == "production" and q["res"] == m:
                    reqs[q["prod"]].append(q)
            ev = []
            seen = defaultdict(int)
            for item, t0, t1, s0, s1 in T.possession(m):
                ev.append((t0, "h", 1))
                if t1 is not None:
                    ev.append((t1, "h", -1))
                k = seen[item]
                seen[item] += 1
                if k < len(reqs[item]):
                    q = reqs[item][k]
                    ev.append((q["t"], q["proc"], 1))
                    ev.append((t0, q["proc"], -1))
            for item, qs in reqs.items():
                for q in qs[seen[item]:]:
                    ev.append((q["t"], q["proc"], 1))
            procs = list(r["process_ids"])
            parts = [[(0.0, 0)] + steps_of(acc(sorted((t, d) for t, k, d in ev if k == key))) for key in ["h"] + procs]
            for x, y, v in timeline(parts, T.end_time):
                if v[0] == 0 and any(w >= b for w in v[1:]):
                    yield "batch-idle", f"{m} (batch size {b}) is empty in [{x:g},{y:g}] although {dict(zip(procs, v[1:]))} products wait"
                    return
    T.batches = n


# --- P25 batteries -----------------------------------------------------------------------------------------
def charging(T):
    """battery-powered resources. Used time counts from the moment a step is begun; the battery is empty at 90 % of its time."""
    S = T.sys
    T.charges = 0
    if T.run.exc or T.run.livelock:
        return
    end = T.end_time
    for res, r in S.res.items():
        chs = [S.state[s] for s in r["state_ids"] if S.state[s]["type"] == "ChargingState"]
        if len(chs) != 1:
            continue
        bm, cm = S.tm_values(chs[0]["battery_time_model_id"]), S.tm_values(chs[0]["time_model_id"])
        if bm[0] != "const" or cm[0] != "const":
            continue
        limit, tol = 0.9 * bm[1], TOL * max(1.0, end)
        veh = res in S.vehicles
        ch = sorted(T.of(res, "Charging"), key=lambda x: x.i0)
        work = sorted(T.of(res, "Transport" if veh else "Production"), key=lambda x: x.i0)
        down = T.down(res)
        T.charges += len(ch)
        iv = [(x.start, x.end if x.end is not None else end) for x in ch]
        for x in ch:
            if x.end is not None and not near(x.end - x.start, cm[1]):
                yield "charge-time", f"{x!r} lasts {x.end - x.start:g} instead of the charging time {cm[1]:g}"
                return
            if any(b.i0 < x.i0 and (b.i1 is None or b.i1 > x.i0) and (b.end is None or b.end > x.start + TOL) for b in T.of(res, "Breakdown")):
                yield "charge-while-down", f"{x!r} starts while {res} is broken down"
                return
        for a, b in zip(iv, iv[1:]):
            if b[0] < a[1] - TOL:
                yield "charge-twice", f"{res} starts charging at t={b[0]:g} while it is still charging since t={a[0]:g}"
                return
        if not veh or "vehicle_charge_overlap" in (T.run.scn.get("judge") or ()):
            for x in work:
                for a, b in x.segs:
                    if overlap(a, b, iv) > TOL:
                        c = next(i for i in iv if min(b, i[1]) - max(a, i[0]) > TOL)
                        yield "charge-while-working", f"{res} charges in [{c[0]:g},{c[1]:g}] while it works on {x!r}"
                        return
        used = lambda x: (x.first_exp - x.start) if x.first_exp is not None else 0.0

        def waited(x, t):
            """x may have been begun up to t already and only have waited for a repair since then"""
            return any(u <= t + TOL and u <= x.start + TOL and x.start <= v + TOL for u, v in down + merge(T.pbd.get((res, x.state), [])))

        def last_charge(t):
            """end of the last charge that began up to t, and its place in the log; what is begun before counts for that charge"""
            return max(((b, x.i1 if x.i1 is not None else INF) for (a, b), x in zip(iv, ch) if a <= t), default=(-INF, -1))

        # every charge is needed: at least the limit has been used since the previous one
        last = -INF
        for (a, b), x in zip(iv, ch):
            hi = sum(used(w) for w in work if w.start <= a + TOL and (w.end is None or w.end > last - TOL))
            if hi < limit - tol:
                yield "needless-charge", f"{res} charges at t={a:g} after only {hi:g} s of use since t={max(last, 0):g}; its battery is empty after {limit:g} s"
                return
            last = b
        # no order is begun on an empty battery
        orders = []
        for w in work:
            prev = orders[-1][-1] if orders else None
            if veh and prev is not None and prev.prod == w.prod and not (w.empty and not prev.empty):
                orders[-1].append(w)
            else:
                orders.append([w])
        cap = r["capacity"]
        su = any(S.state[s]["type"] in ("SetupState",) for s in r["state_ids"])
        fuzzy = any(S.state[s]["type"] in ("BreakDownState", "ProcessBreakDownState") for s in r["state_ids"])
        if veh and cap > 1:
            continue
        caps = r.get("process_capacities")
        if cap > 1 and not r.get("batch_size") and (su or fuzzy or (caps and any(c != cap for c in caps))):
            continue
        if cap > 1 and r.get("batch_size") and (su or fuzzy):
            continue
        for n, o in enumerate(orders):
            t = o[0].start
            lastc, lasti = last_charge(t + TOL)
            inside = [i for i in iv if i[0] + TOL < t < i[1] - TOL]
            if inside:
                yield "start-while-charging", f"{res} begins {o[0]!r} while it is charging in {inside[0]}"
                return
            sure = 0.0
            for p in orders[:n]:
                for w in p:
                    if w.i0 > lasti and w.start < t - TOL and not waited(w, lastc):
                        sure += used(w)
            if sure >= limit + tol and not r.get("batch_size"):  # a batch machine takes on the next batch while one is running
                yield "work-on-empty-battery", f"{res} begins {o[0]!r} after {sure:g} s of use since its last charge; its battery is empty after {limit:g} s"
                return
        # the charge is not put off: it begins when the last order ends, or when the resource is up again
        for n, o in enumerate(orders):
            if o[-1].end is None:
                continue
            t = o[-1].end
            if any(p is not o and p[0].start < t + (TOL if r.get("batch_size") else -TOL) and (p[-1].end is None or p[-1].end > t + TOL) for p in orders):
                continue  # another process is still running
            lastc, lasti = last_charge(t - TOL)
            if any(a < t - TOL and b > t - TOL for a, b in iv):
                continue
            sure = sum(used(w) for p in orders[:n + 1] for w in p if w.i0 > lasti and not waited(w, lastc))
            if sure < limit + tol or t > end - TOL or n + 1 < len(orders) and orders[n + 1][0].start < t - TOL:
                continue
            at = t
            for u, v in down:
                if u <= at + TOL and v >= at - TOL:
                    at = max(at, v)
            if at > end - TOL or veh and o[-1].empty:
                continue
            if not any(t - TOL <= a <= at + TOL for a, b in iv):
                yield "charge-late", f"{res} has used {sure:g} s of its battery ({limit:g} s) when it ends {o[-1]!r} but does not charge at t={at:g}"
                return
