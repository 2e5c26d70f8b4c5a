"""Does the specification notice when what was observed changes?  Runs checks, alters one field of one event of a recorded
trace at a time, and says for every kind of event which of its fields make the trace be rejected when altered."""
import json, os, random, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.chdir(V)
from lib import vf
from checks import registry

MUTANTS = 6
rnd = random.Random(1)


def alter(v):
    """Something like v, but not v"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return 1 - v if v in (0, 1) else v + rnd.choice([-1, 1])
    if isinstance(v, str):
        if not v:
            return "61"
        i = rnd.randrange(len(v))
        return v[:i] + ("1" if v[i] != "1" else "2") + v[i + 1:]
    if isinstance(v, list):
        if not v:
            return None
        k = rnd.choice(["drop", "alter", "alter"])
        i = rnd.randrange(len(v))
        if k == "drop":
            return v[:i] + v[i + 1:]
        a = alter(v[i])
        return None if a is None else v[:i] + [a] + v[i + 1:]
    if isinstance(v, dict):
        k = rnd.choice(sorted(v))
        a = alter(v[k])
        return None if a is None else dict(v, **{k: a})
    return None


done = {}
old = vf.Ctx.conform


def conform(self, exe, module, scripts, **kw):
    traces, confirmed = old(self, exe, module, scripts, **kw)
    where = {}
    for t, trace in enumerate(traces):
        for i, x in enumerate(trace):
            try:
                ev = json.loads(x)
            except ValueError:
                continue
            for f in ev:
                if f != "op":
                    where.setdefault((ev["op"], f), []).append((t, i))
    for (op, f), places in sorted(where.items()):
        key = (module, op, f)
        mutants = []
        for _ in range(MUTANTS * 3):
            t, i = rnd.choice(places)
            ev = json.loads(traces[t][i])
            a = alter(ev[f])
            if a is None or len(traces[t]) > 3000:
                continue
            ev[f] = a
            mutants.append(traces[t][:i] + [json.dumps(ev)] + traces[t][i + 1:])
            if len(mutants) == MUTANTS:
                break
        if not mutants:
            continue
        n = 0
        try:
            n = len(self.judge(module, mutants, kw.get("cfg"), jobs=1, env=kw.get("judge_env")))
        except Exception:
            for m in mutants:
                try:
                    n += len(self.judge(module, [m], kw.get("cfg"), jobs=1, env=kw.get("judge_env")))
                except Exception:
                    n += 1
        d = done.setdefault(key, [0, 0])
        d[0] += len(mutants)
        d[1] += n
    return traces, confirmed


vf.Ctx.conform = conform
for p in sys.argv[1:]:
    registry.CHECKS[p](vf.Ctx(p))
    for (module, op, f), (m, n) in sorted(done.items()):
        print("%s %-14s %-12s %-14s %3d of %3d noticed%s" % (p, module, op, f, n, m, "   <---" if n == 0 else ""))
    done.clear()
    sys.stdout.flush()
vf.cleanup()
