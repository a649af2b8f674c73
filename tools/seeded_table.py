"""Table of seeded bugs in DESIGN.md from the meta.json files (a tool for writing, no check reads this)"""

import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Seeded bugs"
OTHER = {"c16-output-floor": "C16"}


def main():
    rows = []
    top = os.path.join(here, "seeded")
    for name in sorted(os.listdir(top)):
        with open(os.path.join(top, name, "meta.json"), encoding="utf8") as fin:
            meta = json.load(fin)
        rows.append(f"| {name} | {meta['property']} | {meta['needs']} | {meta['what_it_breaks']} |")
    path = os.path.join(here, "DESIGN.md")
    with open(path, encoding="utf8") as fin:
        text = fin.read().split(MARK)[0].rstrip()
    intro = (
        "Each was made from the text of its property, kept once the repository's tests passed with it, and is caught by\n"
        "the check of its property (quick tier). Those that were missed at first led to the wider generators above.\n"
    )
    with open(path, "w", encoding="utf8") as fout:
        fout.write(f"{text}\n\n{MARK}\n\n{intro}\n| change | caught by | needs | breaks |\n|---|---|---|---|\n")
        fout.write("\n".join(rows) + "\n")


main()
