#!/usr/bin/env python3
"""Binding demonstration (run by hand): record sessions from the real code, corrupt one field of one
event per session, and count how many corrupted traces the specification rejects.

  bind.py Cxx [number of sessions]"""
import collections
import copy
import json
import random
import shutil
import sys

import check


def leaves(t, path=()):
    """paths of the text leaves of a logged tree"""
    if isinstance(t, list):
        for k, x in enumerate(t):
            yield from leaves(x, path + (k,))
    else:
        yield path, t


def put(t, path, v):
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = v


def corrupt(d, rnd):
    """one corrupted copy of event d and what was changed, or None"""
    keys = [k for k in d if k not in ("cmd", "msg", "optext", "opdisp")]
    rnd.shuffle(keys)
    for k in keys:
        d2 = copy.deepcopy(d)
        v = d[k]
        if k == "st":
            d2[k] = {"ok": "err", "err": "panic"}.get(v, "ok")
            return d2, "outcome"
        if isinstance(v, bool):
            d2[k] = not v
            return d2, "boolean"
        if k == "chars":
            if not v:
                continue
            i = rnd.randrange(len(v))
            d2[k] = v[:i] + [rnd.choice([c for c in "0123456789+-*/^()xy" if c != v[i]])] + v[i + 1:]
            return d2, "character"
        if isinstance(v, list):
            ls = [(p, x) for p, x in leaves(v) if isinstance(x, str)]
            nums = [(p, x) for p, x in ls if x and x.lstrip("-")[:1].isdigit()]
            ops = [(p, x) for p, x in ls if x in ("add", "sub", "mul", "div", "pow", "sin", "cos", "neg", "exp", "ln")]
            marks = [(p, x) for p, x in ls if x in ("none", "zero", "one", "pi", "e")]
            what = rnd.choice([w for w in ((nums, "number"), (ops, "operator"), (marks, "mark")) if w[0]] or [None])
            if what is None:
                continue
            p, x = rnd.choice(what[0])
            if what[1] == "number":
                y = x[1:] if x.startswith("-") else "-" + x
                if x.lstrip("-0/.") == "" or rnd.random() < 0.6:
                    i = rnd.choice([i for i, c in enumerate(x) if c.isdigit()])
                    y = x[:i] + str((int(x[i]) + 1 + rnd.randrange(8)) % 10) + x[i + 1:]
            elif what[1] == "operator":
                y = rnd.choice([o for o in (("add", "sub", "mul", "div") if x in ("add", "sub", "mul", "div", "pow") else ("sin", "cos", "neg", "exp")) if o != x])
            else:
                y = rnd.choice([o for o in ("none", "zero", "one", "pi") if o != x])
            put(d2[k], p, y)
            return d2, what[1]
    return None


def main():
    prop = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 120
    c = check.Ctx(prop)
    rnd = random.Random(c.seed)
    mods = check.PLAN[prop][0]
    check.PLAN[prop] = (mods, (n, check.PLAN[prop][1][1]), (n, 8))
    try:
        check.build_java(c)
        check.build_harness(c)
        check.source_words(c)
        sess = check.generate(c)
        if prop == "C19":
            sess = [(k, check.two_passes(s)) for k, s in sess]
        rnd.shuffle(sess)
        traces = check.replay(c, sess[:600])
        kind, out = [], []
        for _, ev in traces:
            order = list(range(1, len(ev)))
            rnd.shuffle(order)
            for x in order:
                d = json.loads(ev[x])
                r = corrupt(d, rnd) if d["st"] == "ok" else None
                if r:
                    kind.append((x, d["cmd"][0], r[1]))
                    out.append(("corrupted", ev[:x] + [json.dumps(r[0], ensure_ascii=False) + "\n"] + ev[x + 1:]))
                    break
        bad = check.validate(c, out)
        hit = {k for k, _ in bad}
        tot, rej, miss = collections.Counter(), collections.Counter(), collections.defaultdict(list)
        for k, (x, cmd, what) in enumerate(kind):
            tot[(cmd, what)] += 1
            if k in hit:
                rej[(cmd, what)] += 1
            else:
                miss[(cmd, what)].append(out[k][1][x].strip()[:300])
        for key in sorted(tot):
            print("%-10s %-10s rejected %4d of %4d" % (key + (rej[key], tot[key])))
            if "-v" in sys.argv:
                for z in miss[key][:3]:
                    print("      accepted:", z)
        print("%s: %d of %d corrupted traces rejected" % (prop, sum(rej.values()), sum(tot.values())))
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


if __name__ == "__main__":
    main()
