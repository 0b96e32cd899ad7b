"""Rewrite the generated tables of DESIGN.md (sub-checks; planted changes and what caught them)."""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def subchecks():
    out = ["| id | sub-check | quick cases | non-trivial means | what |", "|----|----|----|----|----|"]
    for path in sorted(glob.glob(os.path.join(HERE, "checks", "c[0-9]*.py"))):
        with open(path) as f:
            tree = ast.parse(f.read())
        with open(path) as f:
            factor = float((re.findall(r"Check\(\"C\d\d\", factor=([\d.]+)", f.read()) + [2.5])[0])
        for node in tree.body:
            for deco in getattr(node, "decorator_list", []):
                if getattr(getattr(deco, "func", None), "attr", "") != "sub":
                    continue
                kw = {k.arg: k.value.value for k in deco.keywords
                      if isinstance(k.value, ast.Constant)}
                doc = (ast.get_docstring(node) or "").split("\n")[0]
                out.append(f"| {os.path.basename(path)[:3].upper()} | `{node.name}` | "
                           f"{int(kw.get('quick', 300) * factor)} | {kw.get('rule', '')} | {doc} |")
    return out


def seeds():
    with open(os.path.join(HERE, "tools", "caught.json")) as f:
        caught = json.load(f)
    out = ["| planted change | property | needs | caught by |", "|----|----|----|----|"]
    for path in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        name = os.path.basename(os.path.dirname(path))
        with open(path) as f:
            meta = json.load(f)
        by = caught.get(name)
        by = "?" if by is None else ", ".join(f"`{s}`" for s in by) or "not caught"
        out.append(f"| {name} | {meta['property']} | {meta['needs']} | {by} |")
    return out


def main():
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as f:
        text = f.read()
    for tag, lines in (("subchecks", subchecks()), ("seeds", seeds())):
        text = re.sub(rf"(<!-- {tag} -->\n).*?(<!-- end {tag} -->)",
                      lambda m: m[1] + "\n".join(lines) + "\n" + m[2], text, flags=re.S)
    with open(path, "w") as f:
        f.write(text)


if __name__ == "__main__":
    main()
