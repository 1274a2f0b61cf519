"""Explicit-state breadth-first search over the real implementation.

A state is reached by replaying a sequence of operations on a fresh instance of
the code under test.  Two sequences are merged only when the complete concrete
state of the implementation (`canon` of its object graph, including aliasing)
is equal, so merging is sound: the implementation is a deterministic function
of that state.
"""
import enum
import hashlib


def canon(obj):
    """hash of a complete object graph, including sharing of mutable objects"""
    seen = {}
    out = []
    keep = []

    def walk(o):
        if o is None or isinstance(o, (bool, int, float, str, bytes)):
            out.append(repr(o))
            return
        if isinstance(o, enum.Enum):
            out.append("E" + repr(o.value))
            return
        if isinstance(o, type) or callable(o) and not hasattr(o, "__dict__"):
            out.append("T" + getattr(o, "__qualname__", repr(o)))
            return
        if id(o) in seen:
            out.append("@%d" % seen[id(o)])
            return
        seen[id(o)] = len(seen)
        keep.append(o)
        if isinstance(o, dict):
            out.append("{")
            for k in sorted(o, key=repr):
                out.append(repr(k) if not hasattr(k, "__dict__") else k.__class__.__name__)
                walk(o[k])
            out.append("}")
        elif isinstance(o, (list, tuple)):
            out.append("[")
            for x in o:
                walk(x)
            out.append("]")
        elif isinstance(o, (set, frozenset)):
            out.append("S")
            for x in sorted(o, key=repr):
                walk(x)
            out.append("s")
        elif type(o).__module__.startswith("torch") or type(o).__module__.startswith("numpy"):
            out.append("t" + repr(o.tolist() if hasattr(o, "tolist") else o))
        else:
            out.append("<" + type(o).__name__)
            d = getattr(o, "__dict__", None)
            if d:
                walk(d)
            p = getattr(o, "__pydantic_private__", None)
            if p:
                walk(p)
            out.append(">")

    walk(obj)
    return hashlib.blake2b("\x00".join(out).encode(), digest_size=12).hexdigest()


def search(ctx, expand, depth, name, batch=64, limit=600, root=()):
    """BFS: `expand(shard, item)` gets {"seqs": [[op..]..]} and must emit
    (sequence, canonical state) for every successor; returns (#states, levels)."""
    seen = set()
    frontier = [list(root)]
    nstates = 1
    levels = 0
    while frontier and levels < depth:
        items = [{"seqs": frontier[i : i + batch]} for i in range(0, len(frontier), batch)]
        out = ctx.explore(expand, items, limit=limit, name=name)
        frontier = []
        # deterministic choice of the representative
        for seq, h in sorted(out, key=lambda x: (x[1], x[0])):
            if h not in seen:
                seen.add(h)
                frontier.append(seq)
        nstates += len(frontier)
        levels += 1
        if ctx.violations:
            break
    ctx.c["states"] = ctx.c.get("states", 0) + nstates
    ctx.spaces[name]["levels"] = levels
    ctx.spaces[name]["fixpoint"] = not frontier
    ctx.spaces[name]["states"] = nstates
    return nstates, not frontier
