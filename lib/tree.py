"""Materialising abstract trees (see spec/Paths.tla) and mapping paths back."""

import os


def build(top, tree):
    for n in sorted(tree, key=lambda n: len(n["p"])):
        path = os.path.join(top, *n["p"])
        if n["kind"] == "dir":
            os.makedirs(path, exist_ok=True)
        elif n["kind"] == "file":
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="utf-8") as f:
                f.write(n.get("text", ""))
        else:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            os.symlink("/".join(n["to"]), path)


def comps(top, base, text):
    """Components, from the top, of what `text` names when resolved from `base` (components); text is kept unnormalised."""
    if text.startswith("/"):
        if text == top or text.startswith(top + "/"):
            rest = text[len(top):]
            return [c for c in rest.split("/") if c]
        return ["<outside>"] + [c for c in text.split("/") if c]
    return list(base) + [c for c in text.split("/") if c]


def rel_comps(top, base, text):
    """As comps, but relative to base (an absolute text climbs out first)."""
    if text.startswith("/"):
        return [".."] * len(base) + comps(top, base, text)
    return [c for c in text.split("/") if c]


def add_links(rng, nodes, usable=lambda n: True, name=None):
    """Adds up to three links, each to something that has no links below it and that does not enclose the link, or to nothing.

    Nodes have p and kind; links get `to`, the path from the top. Returns the paths that exist because of the links."""
    dirs = [n["p"] for n in nodes if n["kind"] == "dir"]
    links, seen = [], []
    for i in range(rng.choice([1, 1, 2, 3])):
        d = rng.choice(dirs)
        if any(d[:len(t)] == t for _, t in links):  # below a target
            continue
        goals = [n for n in nodes if n["kind"] != "link" and usable(n) and d[:len(n["p"])] != n["p"]
                 and not any(p[:len(n["p"])] == n["p"] for p, _ in links)]
        goal = rng.choice(goals) if goals and rng.random() < 0.9 else None
        to = goal["p"] if goal else ["r", "gone"]
        p = d + [name(i, goal) if name else f"l{i}"]
        if goal and goal["kind"] == "file" and rng.random() < 0.4 and not any(goal["p"][:len(t)] == t for _, t in links):  # right beside what it leads to
            base = goal["p"][-1]
            p = goal["p"][:-1] + [rng.choice([base[:-3] + "_" + base[-3:], base[:-4] + base[-3:], base + ".py"])]
        if any(n["p"] == p for n in nodes):
            continue
        links.append((p, to))
        seen += [p + n["p"][len(to):] for n in nodes if n["kind"] != "link" and n["p"][:len(to)] == to]
        nodes.append({"p": p, "kind": "link", "to": to, "abs": rng.random() < 0.5})
    return seen


def make_link(top, n):
    text = os.path.join(top, *n["to"]) if n.get("abs") else "/".join([".."] * (len(n["p"]) - 1) + n["to"])
    os.makedirs(os.path.join(top, *n["p"][:-1]), exist_ok=True)
    os.symlink(text, os.path.join(top, *n["p"]))
