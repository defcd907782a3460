"""Transparent newtypes: a local single-field struct that plays no role of its own and has no Drop
impl is the same thing as its content.  The fact file is rewritten so that the analysis and the
rules see only the content: the field step disappears from every place, building the struct is a
move, and its type is the type of the field."""


def unwrap(facts, keep):
    types = facts.types
    names = set()
    for n, a in facts.adts.items():
        if n in keep or not a["local"] or a["enum"] or a["drop"] or len(a["variants"]) != 1:
            continue
        if len(a["variants"][0]["fields"]) == 1:
            names.add(n)
    if not names:
        return names
    alias = {}
    for i, t in enumerate(types):
        if t["k"] == "adt" and t.get("name") in names:
            ft = t.get("ft") or []
            if len(ft) == 1 and len(ft[0]) == 1:
                alias[i] = ft[0][0]
    bad = {types[i]["name"] for i, t in enumerate(types) if t["k"] == "adt" and t.get("name") in names and i not in alias}
    for i in list(alias):
        seen = {i}
        j = i
        while j in alias and alias[j] not in seen:
            j = alias[j]
            seen.add(j)
        if j in alias:
            bad.add(types[i]["name"])
    names -= bad
    alias = {i: j for i, j in alias.items() if types[i]["name"] in names}
    if not names:
        return names

    def const(tyix, v):
        """the constant without the wrapper"""
        if v.get("k") != "agg":
            return v
        if tyix in alias:
            if len(v["fields"]) == 1:
                return const(v["fields"][0][0], v["fields"][0][1])
            return v
        v["fields"] = [[t, const(t, x)] for t, x in v["fields"]]
        return v

    def walk(x):
        if isinstance(x, dict):
            for k, y in x.items():
                if isinstance(y, (list, dict)):
                    x[k] = walk(y)
            return x
        if not isinstance(x, list):
            return x
        if len(x) >= 5 and x[0] == "agg" and x[1] == "adt" and x[2] in alias and isinstance(x[4], list) and len(x[4]) == 1:
            return ["use", walk(x[4][0])]
        if len(x) >= 3 and x[0] == "k" and isinstance(x[1], int) and isinstance(x[2], dict):
            x[2] = const(x[1], x[2])
        out = []
        for y in x:
            if isinstance(y, list) and len(y) == 5 and y[0] == "f" and isinstance(y[4], str) and y[4] in names:
                continue
            out.append(walk(y) if isinstance(y, (list, dict)) else y)
        x[:] = out
        return x

    for f in facts.fns.values():
        f.j["blocks"] = walk(f.j["blocks"])
    for k, (t, v) in list(facts.consts.items()):
        if isinstance(v, dict):
            facts.consts[k] = (t, const(t, v))
    final = {}
    for i in alias:
        j = i
        while j in alias:
            j = alias[j]
        final[i] = types[j]
    for i, t in final.items():
        types[i] = t
    return names
