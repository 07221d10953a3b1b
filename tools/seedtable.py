"""Regenerates the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (a development tool, not a check)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"


def main():
    rows = []
    for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        with open(os.path.join(HERE, "seeded", name, "meta.json")) as fp:
            m = json.load(fp)
        rows.append((m["property"], f"| {name} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |\n"))
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as fp:
        text = fp.read()
    with open(path, "w") as fp:
        fp.write(text.split(MARK)[0] + MARK + "".join(r for _, r in sorted(rows)))


main()
