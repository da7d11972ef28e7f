"""C15: parsing documents into cards, against spec/SkopsParser*.tla."""
from __future__ import annotations

import copy
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

from common import SEED, THOROUGH, Check, cps, scratch, tlc, validate

from skops.card import parse_modelcard
from skops.card._markup import Markdown
from skops.card._parser import PandocParser

ATTR = ["", [], []]


def txt(c):
    return "".join(map(chr, c))


def secs(card):
    out = []

    def rec(d, depth):
        for s in d.values():
            out.append({"d": depth, "title": cps(s.title), "c": cps(s.content)})
            rec(s.subsections, depth + 1)

    rec(card._data, 1)
    return out


def source(blocks):
    return json.dumps({"pandoc-api-version": [1, 23, 1], "meta": {}, "blocks": blocks})


def run_parser(blocks):
    try:
        return "ok", PandocParser(source(blocks)).generate()
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, None


# ------------------------------------------------------------- pristine conversions
class Pristine:
    """A process that never converted anything; every request is served by a fresh fork."""

    def __init__(self):
        self.r1, self.w1 = os.pipe()
        self.r2, self.w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w1)
                os.close(self.r2)
                self.serve()
            finally:
                os._exit(0)
        os.close(self.r1)
        os.close(self.w2)
        self.inp = os.fdopen(self.w1, "w")
        self.out = os.fdopen(self.r2)

    def serve(self):
        for line in os.fdopen(self.r1):
            pid = os.fork()
            if pid == 0:
                try:
                    res = convert(Markdown(), json.loads(line))
                    os.write(self.w2, (json.dumps(res) + "\n").encode())
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, elem):
        self.inp.write(json.dumps(elem) + "\n")
        self.inp.flush()
        return json.loads(self.out.readline())

    def close(self):
        self.inp.close()
        os.waitpid(self.pid, 0)


def convert(m, elem):
    try:
        return "ok:" + m(elem)
    except Exception as e:  # noqa: BLE001
        return "exc:" + type(e).__name__


def post(s):
    """post-processing of block text: non-breaking spaces and to-do items"""
    return s.replace("\xa0", " ").replace("- ☒", "- [x]").replace("- ☐", "- [ ]")


# ------------------------------------------------------------- document generator
class Gen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def word(self):
        self.n += 1
        return f"w{self.n}x"

    def s(self, text):
        return {"t": "Str", "c": text}

    def inline(self, depth=0):
        r = self.r
        k = r.random()
        if k < 0.5 or depth > 2:
            w = self.word()
            return self.s(r.choice([w, w, w + "/", "a\\" + w, w + "\xa0b", "é" + w, "#" + w]))
        t = r.choice(["Strong", "Emph", "Strikeout", "Code", "RawInline", "Link", "Quoted",
                      "SoftBreak", "LineBreak", "Image"])
        if t in ("Strong", "Emph", "Strikeout"):
            return {"t": t, "c": self.inlines(depth + 1)}
        if t == "Code":
            return {"t": t, "c": [ATTR, self.word()]}
        if t == "RawInline":
            return {"t": t, "c": ["html", f"<b>{self.word()}</b>"]}
        if t == "Link":
            return {"t": t, "c": [ATTR, self.inlines(depth + 1), ["http://u/" + self.word(), ""]]}
        if t == "Quoted":
            return {"t": t, "c": [{"t": r.choice(["DoubleQuote", "SingleQuote"])},
                                  self.inlines(depth + 1)]}
        if t == "Image":
            return {"t": t, "c": [ATTR, self.inlines(3), ["img" + self.word(), "fig:"]]}
        return {"t": t}

    def inlines(self, depth=0):
        out = []
        for k in range(self.r.randint(1, 4)):
            if k:
                out.append({"t": "Space"})
            out.append(self.inline(depth))
        return out

    def cell(self):
        c = [{"t": "Plain", "c": self.inlines(3)}] if self.r.random() < 0.9 else []
        return [ATTR, {"t": "AlignDefault"}, 1, 1, c]

    def row(self, n):
        return [ATTR, [self.cell() for _ in range(n)]]

    def table(self):
        n = self.r.randint(1, 3)
        head = [ATTR, [[ATTR, {"t": "AlignDefault"}, 1, 1,
                        [{"t": "Plain", "c": [self.s(self.word())]}]] for _ in range(n)]]
        heads = [head] + ([self.row(n)] if self.r.random() < 0.1 else [])
        bodies = [[ATTR, 0, [self.row(n)] if self.r.random() < 0.1 else [],
                   [self.row(n) for _ in range(self.r.randint(0, 3))]]
                  for _ in range(2 if self.r.random() < 0.15 else 1)]
        foot = [self.row(n)] if self.r.random() < 0.1 else []
        return {"t": "Table", "c": [ATTR, [None, []],
                                    [[{"t": "AlignDefault"}, {"t": "ColWidthDefault"}]] * n,
                                    [ATTR, heads], bodies, [ATTR, foot]]}

    def old_table(self):
        n = self.r.randint(1, 3)
        cols = [[{"t": "Plain", "c": [self.s(self.word())]}] for _ in range(n)]
        rows = [[[{"t": "Plain", "c": [self.s(self.word())]}] if self.r.random() < 0.9 else []
                 for _ in range(n)] for _ in range(self.r.randint(0, 2))]
        return {"t": "Table", "c": [[], [{"t": "AlignDefault"}] * n, [0.0] * n, cols, rows]}

    def block(self, depth=0):
        r = self.r
        k = r.random()
        if k < 0.4 or depth > 2:
            return {"t": r.choice(["Para", "Para", "Plain"]), "c": self.inlines()}
        t = r.choice(["CodeBlock", "RawBlock", "BulletList", "OrderedList", "BlockQuote", "Div",
                      "Table", "Figure", "OldTable", "todo", "empty"])
        if t == "CodeBlock":
            return {"t": t, "c": [["", r.choice([[], ["python"], ["a", "b"]]), []],
                                  f"# {self.word()}\n  {self.word()}"]}
        if t == "RawBlock":
            return {"t": t, "c": ["html", f"<p>\n{self.word()}\n</p>"]}
        if t == "BulletList":
            return {"t": t, "c": [self.blocks(depth + 1) for _ in range(r.randint(1, 3))]}
        if t == "OrderedList":
            return {"t": t, "c": [[r.randint(0, 9), {"t": "Decimal"}, {"t": "Period"}],
                                  [self.blocks(depth + 1) for _ in range(r.randint(1, 3))]]}
        if t == "BlockQuote":
            return {"t": t, "c": self.blocks(depth + 1)}
        if t == "Div":
            return {"t": t, "c": [[r.choice(["", "id1"]), r.choice([[], ["c1", "c2"]]),
                                   r.choice([[], [["k", "v"]], [["hidden", ""], ["a", "1"]]])],
                                  self.blocks(depth + 1)]}
        if t == "Table":
            return self.table()
        if t == "OldTable":
            return self.old_table()
        if t == "Figure":
            return {"t": t, "c": [ATTR, [None, []], [{"t": "Plain", "c": [
                {"t": "Image", "c": [ATTR, self.inlines(3),
                                     ["img" + self.word(), r.choice(["", "title", "fig:"])]]}]}]]}
        if t == "empty":
            return {"t": "Para", "c": []}
        return {"t": "BulletList", "c": [[{"t": "Plain", "c": [
            self.s(r.choice("☒☐")), {"t": "Space"}, self.s(self.word())]}]]}

    def blocks(self, depth):
        return [self.block(depth) for _ in range(self.r.randint(1, 2))]

    def bad(self):
        """an element whose conversion raises, possibly deep inside supported ones"""
        r = self.r
        x = r.choice([{"t": "Math", "c": [{"t": "InlineMath"}, "x"]}, {"t": "Nope"},
                      {"t": "Image", "c": [ATTR, [], ["u", "fig:"]]},
                      {"t": "Image", "c": [ATTR, [self.s("q")], ["u", "title"]]}])
        b = {"t": "Para", "c": [self.s("p"), x]}
        for _ in range(r.randint(0, 3)):
            b = r.choice([
                lambda b: {"t": "BulletList", "c": [[b]]},
                lambda b: {"t": "OrderedList", "c": [[3, {"t": "D"}, {"t": "P"}], [[b]]]},
                lambda b: {"t": "Div", "c": [ATTR, [b]]},
                lambda b: {"t": "BlockQuote", "c": [b]},
            ])(b)
        return b

    def header(self):
        r = self.r
        lvl = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
        k = r.random()
        if k < 0.35:
            inl = [self.s(r.choice(["Same", "A/B", "A", "Same", "/", "C/", "/D", "A\\/B", "x (2)",
                                    "Same (2)", "1.", "\x1f", "é\xa0b"]))]
        elif k < 0.45:
            inl = [self.s("Two"), {"t": r.choice(["SoftBreak", "LineBreak", "Space"])},
                   self.s("words")]
        elif k < 0.5:
            inl = []
        else:
            inl = [x for x in self.inlines(1) if x["t"] != "Image"] or [self.s("T")]
            inl = [x for x in inl if "Image" not in json.dumps(x)] or [self.s("T")]
        return {"t": "Header", "c": [lvl, ["id", [], []], inl]}

    def doc(self, n):
        out = []
        if self.r.random() < 0.93:
            out.append(self.header())
        while len(out) < n:
            out.append(self.header() if self.r.random() < 0.4 else self.block())
        return out


def spec_inline(x):
    t = x["t"]
    if t == "Str":
        return {"t": t, "s": cps(x["c"])}
    if t in ("Space", "SoftBreak", "LineBreak"):
        return {"t": t}
    if t in ("Strong", "Emph", "Strikeout"):
        return {"t": t, "x": [spec_inline(y) for y in x["c"]]}
    if t in ("Code", "RawInline"):
        return {"t": t, "s": cps(x["c"][1])}
    if t == "Link":
        return {"t": t, "x": [spec_inline(y) for y in x["c"][1]], "s": cps(x["c"][2][0])}
    if t == "Quoted":
        return {"t": x["c"][0]["t"], "x": [spec_inline(y) for y in x["c"][1]]}
    if t == "Image":
        return {"t": t, "x": [spec_inline(y) for y in x["c"][1]], "s": cps(x["c"][2][0])}
    raise AssertionError(t)


def spec_block(x):
    """an element for Md of the specification"""
    t, c = x["t"], x.get("c")
    many = lambda bs: [spec_block(b) for b in bs]  # noqa: E731
    if t in ("Plain", "Para"):
        return {"t": t, "x": [spec_inline(y) for y in c]}
    if t == "CodeBlock":
        return {"t": t, "classes": [cps(y) for y in c[0][1]], "s": cps(c[1])}
    if t == "RawBlock":
        return {"t": t, "s": cps(c[1])}
    if t == "BulletList":
        return {"t": t, "items": [many(y) for y in c]}
    if t == "OrderedList":
        return {"t": t, "start": c[0][0], "items": [many(y) for y in c[1]]}
    if t == "BlockQuote":
        return {"t": t, "x": many(c)}
    if t == "Div":
        return {"t": t, "id": cps(c[0][0]), "classes": [cps(y) for y in c[0][1]],
                "kvs": [{"k": cps(k), "v": cps(v)} for k, v in c[0][2]], "x": many(c[1])}
    if t == "Figure":
        return spec_inline(c[2][0]["c"][0])
    if t == "Table":
        if len(c) == 6:
            rows = [r[1] for r in c[3][1]]
            for b in c[4]:
                rows += [r[1] for r in b[2]] + [r[1] for r in b[3]]
            rows += [r[1] for r in c[5][1]]
            return {"t": t, "rows": [[many(cell[4]) for cell in r] for r in rows]}
        return {"t": t, "rows": [[many(cell) for cell in r] for r in [c[3], *c[4]]]}
    return spec_inline(x)


def leaves(x, out):
    """words of an element in document order"""
    if isinstance(x, dict):
        leaves(x.get("c"), out)
    elif isinstance(x, list):
        for y in x:
            leaves(y, out)
    elif isinstance(x, str):
        out += [int(n) for n in re.findall(r"w(\d+)x", x)]
    return out


def words(s):
    return [int(n) for n in re.findall(r"w(\d+)x", s)]


# ------------------------------------------------------------- runs
def exhaustive(ck):
    L = 6 if THOROUGH else 5
    for maxlen, levels, titles in [(L, "{1,2,3}", 2), (L - 1, "{1,2,3,4,5,6}", 1)]:
        r = tlc(
            "SkopsParserMC",
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT InvNearest\nINVARIANT InvDepth\n"
            f"CONSTANT MaxLen = {maxlen}\nCONSTANT Levels = {levels}\nCONSTANT Titles = {titles}\n",
            timeout=3000,
        )
        ck.log(f"SkopsParserMC {maxlen} {levels}: {r.distinct} states, {r.wall:.1f}s")
        ck.add("states", r.distinct)
        ck.add("transitions", r.states)
        for row in r.rows:
            blocks = []
            for it in row["doc"]:
                if it["t"] == "H":
                    blocks.append({"t": "Header", "c": [it["lvl"], ATTR,
                                                        [{"t": "Str", "c": txt(it["inl"][0]["s"])}]]})
                else:
                    blocks.append({"t": "Para", "c": [{"t": "Str", "c": txt(it["txt"])}]})
            out, card = run_parser(blocks)
            if out != row["out"]:
                ck.violation("parse-outcome", {"blocks": blocks}, f"{out}, spec {row['out']}")
            elif out == "ok" and secs(card) != row["secs"]:
                ck.violation("outline", {"blocks": blocks, "spec": row["secs"]},
                             [(s["d"], txt(s["title"]), txt(s["c"])) for s in secs(card)])
        ck.add("traces_validated_against_impl", len(r.rows))


DUP = {"t": "Table", "c": [ATTR, [None, []], [[{"t": "AlignDefault"}, {"t": "ColWidthDefault"}]] * 2,
       [ATTR, [[ATTR, [[ATTR, {"t": "AlignDefault"}, 1, 1, [{"t": "Plain", "c": [{"t": "Str", "c": "a"}]}]]] * 2]]],
       [[ATTR, 0, [], [[ATTR, [[ATTR, {"t": "AlignDefault"}, 1, 1, [{"t": "Plain", "c": [{"t": "Str", "c": w}]}]]
                               for w in ("w1x", "w2x")]]]]], [ATTR, []]]}  # fmt: skip
CAPTION = {"t": "Table", "c": [ATTR, [None, [{"t": "Plain", "c": [{"t": "Str", "c": "w9x"}]}]],
           [[{"t": "AlignDefault"}, {"t": "ColWidthDefault"}]],
           [ATTR, [[ATTR, [[ATTR, {"t": "AlignDefault"}, 1, 1, [{"t": "Plain", "c": [{"t": "Str", "c": "a"}]}]]]]]],
           [[ATTR, 0, [], []]], [ATTR, []]]}  # fmt: skip


def run_C15():
    ck = Check("C15", "model_checking",
               "all documents of the bounded instance; random pandoc documents; conversions "
               "compared between mappers with different histories and a pristine process")
    pristine = Pristine()
    traces, cases = [], []

    # conversions with history: one long-lived mapper sees everything, also failing elements
    n_conv = 4000 if THOROUGH else 700
    mapper = Markdown()
    g = Gen(random.Random(f"{SEED}/conv"))
    for k in range(n_conv):
        bad = g.r.random() < 0.2
        elem = g.bad() if bad else g.block()
        fresh = pristine(elem)
        mine = copy.deepcopy(elem)
        first = convert(mapper, mine)
        again = convert(mapper, mine)
        text = first.startswith("ok:")
        traces.append([{"op": "conv", "first": cps(first), "again": cps(again), "fresh": cps(fresh),
                        "texty": text, "toks": words(first), "leaves": leaves(elem, []),
                        "elem": spec_block(elem) if not bad else {"t": ""}}])
        cases.append({"element": elem, "first": first, "again": again, "fresh": fresh, "key": None})
    for key, elem in [("table-duplicate-column-names", DUP), ("table-caption", CAPTION)]:
        first = convert(mapper, copy.deepcopy(elem))
        traces.append([{"op": "conv", "first": cps(first), "again": cps(first),
                        "fresh": cps(pristine(elem)), "texty": True, "toks": words(first),
                        "leaves": leaves(elem, []), "elem": {"t": ""}}])
        cases.append({"element": elem, "first": first, "key": key})

    # whole documents
    n_doc = 1500 if THOROUGH else 250
    iso = {}

    def convert_alone(b):
        k = json.dumps(b)
        if k not in iso:
            iso[k] = pristine(b)
        return iso[k]

    for k in range(n_doc):
        g = Gen(random.Random(f"{SEED}/doc/{k}"))
        doc = g.doc(g.r.randint(1, 12))
        sdoc, ok = [], True
        for b in doc:
            if b["t"] == "Header":
                sdoc.append({"t": "H", "lvl": b["c"][0], "inl": [spec_inline(x) for x in b["c"][2]]})
            else:
                c = convert_alone(b)
                ok = ok and c.startswith("ok:")
                sdoc.append({"t": "B", "txt": cps(post(c[3:]))})
        if not ok:
            continue
        out, card = run_parser(doc)
        e = {"op": "parse", "doc": sdoc, "out": out}
        if card is not None:
            e["secs"] = secs(card)
            e["lines"] = [cps(x) for x in card.render().split("\n")]
        traces.append([e])
        cases.append({"document": doc, "out": out, "key": None,
                      "sections": [(s["d"], txt(s["title"]), txt(s["c"])) for s in e.get("secs", [])]})
    pristine.close()

    # through pandoc: text -> card -> rendered text -> card
    if shutil.which("pandoc"):
        tmp = scratch()
        for k in range(60 if THOROUGH else 12):
            r = random.Random(f"{SEED}/md/{k}")
            lines = []
            for j in range(r.randint(2, 9)):
                lines.append("#" * r.choice([1, 2, 2, 3, 4]) + " "
                             + r.choice(["Alpha", "Beta/Gamma", "Alpha", f"T{j}", "Delta\\\\x"]))
                for _ in range(r.randint(0, 2)):
                    lines.append(r.choice(["some text", "- a\n- b\n    - c", "> quote",
                                           "1. x\n2. y", "`code` and **bold**",
                                           "| a | b |\n|---|---|\n| 1 | 2 |"]))
            f = tmp / f"d{k}.md"
            f.write_text("\n\n".join(lines) + "\n")
            blocks = json.loads(subprocess.run(["pandoc", "-t", "json", "-s", str(f)],
                                               capture_output=True).stdout)["blocks"]
            heads = [{"t": "H", "lvl": b["c"][0], "inl": [spec_inline(x) for x in b["c"][2]]}
                     for b in blocks if b["t"] == "Header"]
            card = parse_modelcard(f)
            got = [{**s, "c": []} for s in secs(card)]
            rendered = card.render()
            card.save(tmp / "again.md")
            card2 = parse_modelcard(tmp / "again.md")
            ol = lambda c: [{"d": s["d"], "title": s["title"]} for s in secs(c)]  # noqa: E731
            hl = [x for s in got for x in ("#" * s["d"] + " " + txt(s["title"]), "")]
            traces.append([
                {"op": "parse", "doc": heads, "out": "ok", "secs": got, "lines": [cps(x) for x in hl]},
                {"op": "reparse", "a": ol(card), "b": ol(card2)},
            ])
            cases.append({"markdown": "\n\n".join(lines), "rendered": rendered, "key": None})
        ck.cov["pandoc_documents"] = 60 if THOROUGH else 12

    exhaustive(ck)
    bad, nev, nst = validate("SkopsParserTrace", traces)
    ck.add("states", nst)
    ck.add("transitions", nev)
    ck.add("traces_validated_against_impl", len(traces))
    for b in bad:
        c = cases[b["t"]]
        ck.violation(",".join(b["bad"]), c, json.dumps(c, default=repr)[:300], key=c.get("key"))
    ck.cov["conversions"] = n_conv
    ck.cov["documents"] = n_doc
    ck.cov["samples"] = [cases[0], cases[-1]]
    return ck.finish()
