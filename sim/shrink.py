"""
Minimises a failing plan: operations, operations within overlapping groups, faults and configuration, keeping the same violation
(property and code). Choices within a run depend on the seed and the operation's id only, so dropping operations leaves the
others as they are.
"""
import copy

import env
import runner


def fails(plan, focus, code):
    out = runner.run(plan, focus)
    v = runner.first(out, focus)
    return v is not None and v.code == code


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items):
            if env.real_monotonic() > deadline:
                return items
            rest = items[:i] + items[i + size:]
            if test(rest):
                items = rest
                reduced = True
            else:
                i += size
        if size == 1 and not reduced:
            return items
        if size == 1:
            n = max(2, len(items))
        else:
            n = min(len(items), n * 2) or 1
    return items


def shrink(plan, focus, code, seconds=60):
    deadline = env.real_monotonic() + seconds
    best = copy.deepcopy(plan)

    def attempt(p):
        nonlocal best
        if env.real_monotonic() > deadline:
            return False
        if fails(p, focus, code):
            best = p
            return True
        return False

    if best.get("final"):
        attempt(dict(best, final=False))
        if best.get("final") == "full":
            attempt(dict(best, final=True))
    for _ in range(3):
        before = len(str(best))

        def with_ops(ops):
            return attempt(dict(best, ops=ops))
        ddmin(list(best["ops"]), with_ops, deadline)
        # inside overlapping groups
        for i in range(len(best["ops"])):
            if i < len(best["ops"]) and best["ops"][i].get("ops"):
                def with_sub(sub, i=i):
                    ops = list(best["ops"])
                    ops[i] = dict(ops[i], ops=sub)
                    return bool(sub) and attempt(dict(best, ops=ops))
                ddmin(list(best["ops"][i]["ops"]), with_sub, deadline)
        # faults
        for i in range(len(best["ops"])):
            o = best["ops"][i]
            if isinstance(o.get("f"), list):
                for f in list(o["f"]):
                    ops = list(best["ops"])
                    ops[i] = dict(ops[i], f=[x for x in ops[i]["f"] if x is not f])
                    attempt(dict(best, ops=ops))
            for j in range(len(o.get("ops", []))):
                if best["ops"][i]["ops"][j].get("f"):
                    ops = list(best["ops"])
                    sub = list(ops[i]["ops"])
                    sub[j] = {k: x for k, x in sub[j].items() if k != "f"}
                    ops[i] = dict(ops[i], ops=sub)
                    attempt(dict(best, ops=ops))
        # simpler configuration
        if "nodes" in best:
            for key, value in (("lat", 0), ("slow_trust", False), ("ids", [])):
                if best["cfg"].get(key) != value:
                    attempt(dict(best, cfg=dict(best["cfg"], **{key: value})))
            for i in range(len(best["nodes"])):
                for key, value in (("fw", "a"), ("cache", False), ("susp", False), ("mig", False), ("thr", 99), ("label", None), ("und", "U")):
                    if best["nodes"][i].get(key) != value:
                        nodes = list(best["nodes"])
                        nodes[i] = dict(nodes[i], **{key: value})
                        attempt(dict(best, nodes=nodes))
        if len(str(best)) == before:
            break
    return best
