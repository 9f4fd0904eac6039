"""Reads a LaTeX table back into its parts, independent of whitespace."""
import re


class Table:
    def __init__(self, text):
        self.text = text
        m = re.fullmatch(
            r"\s*\\begin\{table\}\s*(?:\\centering)?\s*\\caption\{(?P<cap>.*?)\}\s*\\label\{(?P<lab>[^\n]*?)\}\s*"
            r"\\begin\{tabular\}\{(?P<spec>[^}]*)\}\s*(?P<body>.*?)\s*\\end\{tabular\}\s*\\end\{table\}\s*", text, re.S)
        self.ok = m is not None
        if not m:
            return
        self.caption, self.label, self.spec = m["cap"], m["lab"], m["spec"]
        self.columns = len(self.spec.replace("|", "").replace(" ", ""))
        self.items = []  # "hline" or a list of cells, in order
        rest = m["body"]
        while rest.strip():
            rest = rest.strip()
            if rest.startswith("\\hline"):
                self.items.append("hline")
                rest = rest[6:]
                continue
            row, sep, rest = rest.partition("\\\\")
            if not sep:
                self.ok = False
                return
            self.items.append([c.strip() for c in row.split("&")])
        self.rows = [r for r in self.items if r != "hline"]
        self.hlines = [i for i, r in enumerate(self.items) if r == "hline"]
