"""Minimal TOML writer/reader helpers (tables of scalars, lists)."""
import tomllib


def load(path):
    with open(path, "rb") as f:
        return tomllib.load(f)


def _v(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(_v(x) for x in v) + "]"
    s = str(v).replace("\\", "\\\\").replace('"', '\\"')
    return f'"{s}"'


def dump(d, path):
    out = []
    for k, v in d.items():
        if not isinstance(v, dict):
            out.append(f"{k} = {_v(v)}")
    for k, v in d.items():
        if isinstance(v, dict):
            out.append(f"\n[{k}]")
            for kk, vv in v.items():
                out.append(f"{kk} = {_v(vv)}")
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")


def merge(base, over):
    """Deep merge; `over` may also hold flat keys, which go to the table that
    already defines them (or to EXTRA)."""
    res = {k: dict(v) if isinstance(v, dict) else v for k, v in base.items()}
    for k, v in over.items():
        if isinstance(v, dict):
            res.setdefault(k, {}).update(v)
        else:
            for t in res.values():
                if isinstance(t, dict) and k in t:
                    t[k] = v
                    break
            else:
                res.setdefault("EXTRA", {})[k] = v
    return res


def flat(d):
    out = {}
    for v in d.values():
        if isinstance(v, dict):
            out.update(v)
    return out
