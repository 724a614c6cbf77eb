"""Lock order: which lock is waited for while which other is held, over every path of every analysed function of a declaration."""
import re
from oracle import Finding

ORDER = re.compile(r"\b(Lt|Le|Gt|Ge|lt|le|gt|ge|cmp|partial_cmp|offset_from|min|max)\b")


def split(l):
    m = re.match(r"(arg\d+)(?:\.(.*))?$", l)
    return (m.group(1), m.group(2) or "") if m else (None, l)


def waits(o):
    """(held lock, held mode, awaited lock, mode) of each blocking acquisition made while another lock is held."""
    for e in o.get("events") or []:
        if e["e"] == "acq" and e.get("how") != "try":
            mode = e["mode"]
        elif e["e"] == "mode" and e.get("to") == "write":
            mode = "write"
        else:
            continue
        for h in e.get("held") or []:
            l, _, m = h.rpartition(":")
            if l != e["lock"]:
                yield l, m, e["lock"], mode, e.get("how")


def judge(res):
    out, n = [], 0
    graph, excl, two = {}, set(), {}
    for path, o in res.outcomes.items():
        fn = path.rsplit("::", 1)[1]
        for x in o["outcomes"]:
            if x["exit"] in ("bad", "dead"):
                continue
            n += 1
            for e in x.get("events") or []:
                if (e["e"] == "acq" and e["mode"] != "read") or e["e"] == "mode":
                    excl.add(split(e["lock"])[1])
            for l, m, a, mode, how in waits(x):
                (r1, p1), (r2, p2) = split(l), split(a)
                if r1 is None or r2 is None:
                    continue            # a container made by the function itself: nobody else can hold it
                if r1 != r2:
                    two.setdefault((fn, frozenset((p1, p2))), []).append((r1, r2, x["cond"], how, m))
                elif how != "read_recursive" or m != "read":
                    graph.setdefault((p1, p2), set()).add(fn)
    for (fn, ps), ws in two.items():
        if not ps & excl:
            continue                    # only ever read-locked: nobody waits
        seen = {}
        for r1, r2, cond, how, m in ws:
            if how == "read_recursive" and m == "read":
                continue                # not held up by queued writers
            k = tuple(sorted((c, str(v)) for c, v in cond.items() if ORDER.search(c) and r1 in c and r2 in c))
            seen.setdefault(k, set()).add((r1, r2))
        for k, v in seen.items():
            if not k or len(v) > 1:
                out.append(Finding({"C37"}, "lock-order", fn, "holds the lock of one object while it waits for that of the other, in the order its arguments are given: two threads that pass the same two objects in opposite orders block each other as soon as writers queue in between"))
                break
        else:
            ks = [dict(k) for k in seen]
            if len(seen) > 1 and len({frozenset(v) for v in seen.values()}) == 1:
                out.append(Finding({"C37"}, "lock-order", fn, "compares the addresses of two objects yet locks them in the same order whatever the outcome: %s" % ks))
    for (a, b), f1 in graph.items():
        if (b, a) in graph and a in excl and b in excl and (a, b) <= (b, a):
            out.append(Finding({"C37"}, "lock-order", ",".join(sorted(f1)), "waits for %s holding %s, while %s waits the other way round" % (b, a, ",".join(sorted(graph[(b, a)])))))
    return out, n
