#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough      runs the check of one property
   check.py --replay FILE               re-executes a recorded violation against the current tree"""
import json, os, random, re, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import core
from core import *
import models

EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(self.seed * 7919 + 13)
        self.t0 = time.time()
        self.violations = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, steps_replayed=0,
                        traces_accepted_by_tlc=0, models=[], samples=[])
        self.work = tempfile.mkdtemp(prefix="vt_" + pid + "_")
        self.exe = None
        self.exhaustive = True
        self.sigs = set()

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # -------------------------------------------------------------- violations
    def report(self, md, hist, step, what, exp, got):
        """hist: ops up to and including the failing one."""
        if len(self.violations) >= 5:
            return
        os.makedirs(EVID + "/replays", exist_ok=True)
        path = f"{EVID}/replays/{self.pid}-{len(self.violations) + 1}.json"
        json.dump(dict(property=self.pid, model=md.driver, begin=md.begin, ops=hist, step=step, what=what, expected=exp, observed=got),
                  open(path, "w"), indent=1)
        self.violations.append(path)
        self.log("mismatch in", md.name, ":", what)
        self.log("   history:", " ; ".join(op_line(a) for a in hist)[-1500:])
        self.log("   expected:", canon(exp)[:1500])
        self.log("   observed:", canon(got)[:1500])

    # -------------------------------------------------------------- replay of spec behaviours
    def replay(self, md, plans, label):
        """plans: list of (ops, allowed) ; allowed[k] = list of (r, o) accepted at step k (k=0: init)."""
        drv = Driver(self.exe, md.driver, self.work, md.limit)
        outs = drv.run_many([p[0] for p in plans], md.begin)
        logs = []
        for (ops, allowed), (got, why) in zip(plans, outs):
            if why == "skipped":
                continue
            v = self.compare(md, ops, allowed, got, why)
            if v is None:
                self.cov["traces_validated_against_impl"] += 1
                self.cov["steps_replayed"] += len(ops)
                logs.append((ops, got))
            elif v != "branch":
                # re-run it alone before reporting it
                sig = (md.name, ops[v[0] - 1]["op"] if v[0] else "", v[1][:60])
                if len(self.violations) < 5 and sig not in self.sigs:
                    (got2, why2), = drv.run_many([ops], md.begin)
                    v2 = self.compare(md, ops, allowed, got2, why2)
                    if v2 is None or v2 == "branch":
                        self.log("not repeatable, ignored:", v[1])
                        continue
                    self.sigs.add(sig)
                    self.report(md, ops[:v2[0]], v2[0], v2[1], v2[2], v2[3])
        return logs

    def compare(self, md, ops, allowed, got, why):
        n = len(ops)
        for k in range(n + 1):
            if k >= len(got):
                if (why or "").startswith("script error"):  # an operation that cannot be applied although every observation agreed
                    raise CheckError("driver: " + why + " at " + " ; ".join(op_line(a) for a in ops[:k])[-3000:])
                return (k, why or "no output", "a result", why)
            g = got[k]
            if g.get("x"):
                return (k, "the library's own assertion failed", [list(x) for x in allowed[k]][:1], g)
            okk = False
            for (r, o) in allowed[k]:
                if (k == 0 or md.same(r, g["r"])) and md.same(o, g["o"]):
                    okk = True
                    break
            if not okk:
                return (k, "result" if k and all(not md.same(r, g["r"]) for r, o in allowed[k]) else "state",
                        dict(result=allowed[k][0][0], state=allowed[k][0][1]), g)
            if k < n and len(allowed[k]) > 1 and not (md.same(allowed[k][0][1], g["o"]) and (k == 0 or md.same(allowed[k][0][0], g["r"]))):
                return "branch"
        if len(got) <= n + 1:
            return (n, why or "no end", "normal end of the history", why)
        g = got[n + 1]
        if g.get("x"):
            return (n, "the library's own assertion failed while the history is torn down", True, g)
        if g["r"] is not True:
            return (n, "after releasing everything", True, g["r"])
        return None

    # -------------------------------------------------------------- exhaustive exploration
    def exhaustive_part(self, md, c):
        tlc = Tlc(self.work)
        g = Graph()

        def sink(line):
            d = unprint(line)
            if "i" in d:
                g.add_init(d["s"], d["o"])
            else:
                g.add(d["s"], d["a"], d["r"], d["t"], d["o"])
        body = """
VView == st
VNext == \\E a \\in VActs : Step(a)
VEmit == PrintT(ToJson([s |-> st, a |-> act'.a, r |-> act'.r, t |-> st', o |-> Obs(st')]))
VInit == TLCGet("level") > 1 \\/ PrintT(ToJson([s |-> st, i |-> 1, o |-> Obs(st)]))
"""
        ops = c["ops"].split() if c.get("ops") else md.ops
        body = f"VActs == {{a \\in Acts : a.op \\in {cfg_value(set(ops))}}}\n" + body
        props = ""
        for k in md.actionprops:
            body += f"VP_{k} == [][{k}]_st\n"
            props += f"PROPERTY VP_{k}\n"
        cfg = "INIT Init\nNEXT VNext\nVIEW VView\nACTION_CONSTRAINT VEmit\nCHECK_DEADLOCK FALSE\nINVARIANT VInit\n"
        cfg += "".join(f"INVARIANT {i}\n" for i in md.invariants) + props
        bodyc, cfgc = constants(c["const"])
        body, cfg = bodyc + body, cfg + cfgc
        rc, out, _, timed, dt = tlc.run("MC" + md.module, md.module + ", TLC, Json, Naturals, Sequences", body, cfg, ["-workers", str(WORKERS)],
                                        timeout=c.get("timeout", 600), sink=sink, heap=c.get("heap", "6g"))
        txt = "\n".join(out)
        if timed:
            raise CheckError(f"TLC ran out of time on {md.module}")
        if rc != 0:
            sys.stderr.write(txt[-3500:] + "\n")
            raise CheckError(f"TLC rejects the specification {md.module} (status {rc})")
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        gen, dist = int(m.group(1)), int(m.group(2))
        if dist != len(g.keys):
            raise CheckError(f"{md.module}: {dist} states but {len(g.keys)} parsed")
        self.log(f"{md.name}: TLC explored {dist} states, {len(g.edges)} transitions in {dt:.1f}s: every invariant holds")
        self.cov["states"] += dist
        self.cov["transitions"] += len(g.edges)
        plans = self.graph_plans(md, g, c)
        self.log(f"{md.name}: {len(plans)} walks of {sum(len(p[0]) for p in plans)} steps cover every transition")
        logs = self.replay(md, plans, "cover")
        self.cov["models"].append(dict(model=md.name, constants={k: canon_const(v) for k, v in c["const"].items()}, states=dist,
                                       transitions=len(g.edges), per_action=dict(g.actcount), walks=len(plans)))
        if plans:
            p = self.rng.choice(plans)
            self.cov["samples"].append(dict(model=md.name, history=[op_line(a) for a in p[0]][:30]))
        return g, logs

    def graph_plans(self, md, g, c):
        plans = []
        for rep in range(c.get("covers", 1)):
            walks = g.cover(random.Random(self.rng.random()), maxlen=c.get("maxlen", 60))
            for w in walks:
                plans.append(self.plan(g, w))
        # additional long random walks over the whole graph
        for _ in range(c.get("randwalks", 200)):
            n = self.rng.choice(g.init)
            w = []
            for _ in range(c.get("randlen", 60)):
                if not g.out[n]:
                    break
                e = self.rng.choice(g.out[n])
                w.append(e)
                n = g.edges[e][3]
            if w:
                plans.append(self.plan(g, w))
        return plans

    def plan(self, g, w):
        ops, allowed = [], []
        n0 = g.edges[w[0]][0]
        allowed.append([("init", g.obs[n0])])
        for e in w:
            i, a, r, j = g.edges[e]
            ops.append(a)
            al = [(r, g.obs[j])]
            for e2 in g.byact[i][canon(a)]:
                if e2 != e:
                    al.append((g.edges[e2][2], g.obs[g.edges[e2][3]]))
            allowed.append(al)
        return (ops, allowed)

    # -------------------------------------------------------------- random simulation with larger constants
    def simulation_part(self, md, c):
        tlc = Tlc(self.work)
        plans, seen = [], set()
        counts = collections.Counter()

        pre = collections.Counter()

        def sink(line):
            # the simulator prints every successor of the last step: keep two of them per behaviour
            pk = line[:line.rfind('{\\"a\\":')]
            if pre[pk] >= 2 or line in seen:
                return
            pre[pk] += 1
            seen.add(line)
            h = unprint(line)["h"]
            ops = [x["a"] for x in h[1:]]
            for a in ops:
                counts[a["op"]] += 1
            plans.append((ops, [[("init", h[0]["o"])]] + [[(x["r"], x["o"])] for x in h[1:]]))
        k = c.get("fan", 30)
        D = c["depth"]
        body = f"""
VARIABLE hist
SInit == Init /\\ hist = <<[o |-> Obs(st)]>>
SKinds == {{a.op : a \\in Acts}} \\cap {cfg_value(set(md.ops))}
SByKind == [k \\in SKinds |-> {{a \\in Acts : a.op = k}}]
SMin(x, y) == IF x < y THEN x ELSE y
SCard == [k \\in SKinds |-> SMin({k}, Cardinality(SByKind[k]))]
SLive(n) == LET now == TLCEval({c.get("live", "{}")})
                of == [k \\in SKinds |-> {{a \\in now : a.op = k}}]
            IN UNION {{RandomSubset(SMin({k}, Cardinality(of[k])), of[k]) : k \\in RandomSubset(SMin({c.get("kinds", 4)}, Cardinality(SKinds)), SKinds) \\cup {cfg_value(set(c.get("grow", [])))}}}
SGrow == {cfg_value(set(c.get("grow", [])))}
SActs(n) == (UNION {{RandomSubset(SCard[k], SByKind[k]) : k \\in RandomSubset(SMin({c.get("kinds", 4)}, Cardinality(SKinds)), SKinds)}})
         \\cup (UNION {{RandomSubset(SMin({c.get("growfan", 4)}, Cardinality(SByKind[k])), SByKind[k]) : k \\in SGrow}})
SNext == Len(hist) <= {D} /\\ (\\E a \\in SActs(Len(hist)) : Step(a)) /\\ hist' = Append(hist, [a |-> act'.a, r |-> act'.r, o |-> Obs(st')])
SEmit == Len(hist) # {D + 1} \\/ PrintT(ToJson([h |-> hist]))
"""
        if not c.get("subset", True):
            body = body.replace("a \\in SActs", "a \\in Acts")
        if c.get("live"):
            i, j = body.index("SKinds =="), body.index("SMin(x")
            body = body[:i] + f"SKinds == {cfg_value(set(md.ops))}\n" + body[j:]
            i, j = body.index("SCard =="), body.index("SLive(n)")
            body = body[:i] + body[j:]
            i, j = body.index("SGrow =="), body.index("SNext ==")
            body = body[:i] + body[j:]
            body = body.replace("a \\in SActs", "a \\in SLive")
        cfg = "INIT SInit\nNEXT SNext\nCHECK_DEADLOCK FALSE\nINVARIANT SEmit\n" + "".join(f"INVARIANT {i}\n" for i in md.invariants)
        bodyc, cfgc = constants(c["const"])
        body, cfg = bodyc + body, cfg + cfgc
        rc, out, _, timed, dt = tlc.run("SIM" + md.module, md.module + ", TLC, Json, Naturals, Sequences, FiniteSets, Randomization", body, cfg,
                                        ["-simulate", f"num={c['num']}", "-depth", str(D + 2), "-seed", str(self.seed * 1000 + 7), "-workers", str(WORKERS)],
                                        timeout=c.get("timeout", 300), sink=sink)
        txt = "\n".join(out)
        if rc != 0 and not timed:
            sys.stderr.write(txt[-3500:] + "\n")
            raise CheckError(f"TLC simulation rejects the specification {md.module} (status {rc})")
        cap = c.get("cap", 4 * c["num"])
        if len(plans) > cap:
            plans = self.rng.sample(plans, cap)
        self.log(f"{md.name}: {len(plans)} simulated behaviours of length {D} in {dt:.1f}s (constants {str(c['const'])[:300]})")
        if not plans:
            raise CheckError(f"{md.module}: the simulation produced no behaviour")
        logs = self.replay(md, plans, "simulation")
        self.cov["models"].append(dict(model=md.name + " (simulation)", constants={k: canon_const(v) for k, v in c["const"].items()},
                                       behaviours=len(plans), depth=D, per_action=dict(counts)))
        return counts, logs

    # -------------------------------------------------------------- TLC validates logs of the implementation
    def trace_part(self, md, logs, const, limit=150):
        logs = [l for l in logs if len(l[0]) > 1]
        logs.sort(key=lambda l: -len(l[0]))
        pick = logs[:limit // 2]
        rest = logs[limit // 2:]
        pick += self.rng.sample(rest, min(len(rest), limit - len(pick)))
        if not pick:
            return
        tf = os.path.join(self.work, "trace.ndjson")
        with open(tf, "w") as f:
            for ops, got in pick:
                f.write(json.dumps(dict(h=[dict(a=a, r=g["r"], o=g["o"]) for a, g in zip(ops, got[1:])], o=got[0]["o"])) + "\n")
        body = f"""
Traces == ndJsonDeserialize("{tf}")
VARIABLES th, tl
VTSame(x, y) == IF ToString(x) = ToString(y) THEN TRUE ELSE x = y
TInit == Init /\\ th \\in 1..Len(Traces) /\\ tl = 1
TMatch == LET e == Traces[th].h[tl] IN Step(e.a) /\\ VTSame(act'.r, e.r) /\\ VTSame(Obs(st'), e.o)
TNext == \\/ tl <= Len(Traces[th].h) /\\ TMatch /\\ tl' = tl + 1 /\\ th' = th
         \\/ tl > Len(Traces[th].h) /\\ UNCHANGED <<st, act, th, tl>>
"""
        cfg = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK TRUE\n" + "".join(f"INVARIANT {i}\n" for i in md.invariants)
        bodyc, cfgc = constants(const)
        body, cfg = bodyc + body, cfg + cfgc
        rc, out, _, timed, dt = Tlc(self.work).run("TR" + md.module, md.module + ", TLC, Json, Naturals, Sequences", body, cfg,
                                                   ["-workers", str(WORKERS)], timeout=300)
        txt = "\n".join(out)
        if rc == 0:
            self.cov["traces_accepted_by_tlc"] += len(pick)
            self.log(f"{md.name}: TLC accepts {len(pick)} recorded executions ({sum(len(p[0]) for p in pick)} events) in {dt:.1f}s")
        else:
            sys.stderr.write(txt[-3000:] + "\n")
            raise CheckError(f"{md.module}: the replay comparison accepted an execution that TLC rejects (status {rc})")

    def run(self):
        prop = models.PROPS[self.pid]
        self.exe = B.build()
        self.log("library and driver built from", B.REPO)
        for md, conf in prop["models"]:
            if os.environ.get("VT_ONLY", "") not in md.name:
                continue
            conf = conf[self.tier]
            if not conf or self.violations:
                continue
            counts = collections.Counter()
            logs = []
            used = None
            for c in conf.get("mc", []):
                g, l = self.exhaustive_part(md, c)
                counts.update(g.actcount)
                logs += l
                used = c
                del g
            for c in conf.get("sim", []):
                if self.violations:
                    break
                cc, l = self.simulation_part(md, c)
                counts.update(cc)
                logs += l
                used = c
            missing = [o for o in md.ops if not counts[o]]
            if missing and not self.violations:
                raise CheckError(f"{md.name}: actions never taken: {missing}")
            if not self.violations and conf.get("trace", True):
                self.trace_part(md, logs, conf.get("trace_const", used["const"]), conf.get("trace_n", 100))
        for f in prop.get("extra", []):
            f(self)
        self.known()
        self.evidence(prop)
        for p in self.violations:
            print(f"VIOLATION property={self.pid} replay={p}")
        return 1 if self.violations else 0

    def known(self):
        if not os.path.exists(KNOWN):
            return
        for k in json.load(open(KNOWN))["findings"]:
            if k["property"] != self.pid or k.get("status") == "fixed":
                continue
            drv = Driver(self.exe, k["model"], self.work, 20)
            (got, why), = drv.run_many([k["ops"]], k.get("begin"))
            fails = why is not None or any(g.get("x") for g in got)
            if not fails:
                last = got[len(k["ops"])]
                fails = canon(dict(r=last["r"], o=last["o"])) != canon(k["correct"])
            if fails:
                print(f"KNOWN-FINDING: property={self.pid} {k['id']}: {k['what']}")
            else:
                self.log("the known finding", k["id"], "no longer fails")

    def evidence(self, prop):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(self.cov)
        cov["exhaustive"] = False
        cov["explanation"] = prop["explain"]
        if not cov["samples"]:
            cov["samples"] = ["no history was replayed"]
        json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                       assumptions=prop.get("assumptions", []), wall_s=round(time.time() - self.t0, 1), violations=len(self.violations)),
                  open(f"{EVID}/{self.pid}.json", "w"), indent=1, default=lambda v: sorted(v, key=str))


def canon_const(v):
    return sorted(v, key=str) if isinstance(v, (set, frozenset)) else v


def replay_file(path):
    d = json.load(open(path))
    exe = B.build()
    work = tempfile.mkdtemp(prefix="vt_replay_")
    (got, why), = Driver(exe, d["model"], work, 30).run_many([d["ops"]], d.get("begin"))
    for a, g in zip([{"op": "@begin"}] + d["ops"], got):
        print(op_line(a), "->", canon(g))
    print("status:", why or "ended normally")
    print("expected after the last step:", canon(d["expected"]))
    shutil.rmtree(work, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        replay_file(sys.argv[2])
        return 0
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    r = Run(pid, tier)
    try:
        return r.run()
    except CheckError as e:
        for p in r.violations:
            print(f"VIOLATION property={pid} replay={p}")
        if r.violations:
            r.evidence(models.PROPS[pid])
            return 1
        print("ERROR:", e)
        return 2
    finally:
        if not os.environ.get("VT_KEEP"):
            shutil.rmtree(r.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
