"""C09, C10, C14: model cards, against spec/SkopsCard*.tla."""
from __future__ import annotations

import json
import random
from pathlib import Path

from common import SEED, THOROUGH, Check, cps, scratch, tlc, validate

from skops.card import Card
from skops.card import _model_card as mc


def txt(c):
    return "".join(map(chr, c))


# ----------------------------------------------------------------------- projection
class Abstract:
    """Long opaque texts (model diagrams) are replaced by tokens on both sides."""

    def __init__(self):
        self.tok = {}

    def add(self, s):
        if len(s) > 1500 and s not in self.tok:
            self.tok[s] = f"HTML#{len(self.tok)}#"

    def __call__(self, s):
        for k, v in self.tok.items():
            if k in s:
                s = s.replace(k, v)
        return s


def proj_section(key, s, ab=lambda x: x, full=False):
    kind = (
        "plot" if isinstance(s, mc.PlotSection)
        else "table" if isinstance(s, mc.TableSection) else "plain"
    )  # fmt: skip
    r = {
        "k": cps(key), "t": cps(s.title), "c": cps(ab(s.content)), "v": bool(s.visible),
        "f": bool(s.folded), "kind": kind,
        "sub": [proj_section(k, v, ab, full) for k, v in s.subsections.items()],
    }  # fmt: skip
    if full and kind == "plot":
        r |= {"alt": cps(str(s.alt_text)), "file": cps(str(s.path))}
    elif full and kind == "table":
        head, rows = table_text(s.table)
        r |= {"head": [cps(h) for h in head], "rows": [[cps(c) for c in x] for x in rows]}
    return r


def proj(card, ab=lambda x: x, full=False):
    return [proj_section(k, v, ab, full) for k, v in card._data.items()]


def table_text(tab):
    """header and cells of a table as the text of its values"""
    if hasattr(tab, "iat"):
        texts = [[str(tab.iat[i, j]) for i in range(len(tab))] for j in range(tab.shape[1])]
        head = [str(c) for c in tab.columns]
    else:
        texts = [[str(x) for x in c] for c in tab.values()]
        head = [str(k) for k in tab]
    return head, [list(x) for x in zip(*texts)] if texts and texts[0] else []


def new_card():
    return Card(model=None, template=None, model_diagram=False)


def guard(fn):
    """outcome name and value of a call"""
    try:
        return "ok", fn()
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, None


def chain_select(card, chain):
    s = card
    for p in chain:
        s = s.select(p)
    return s


# ----------------------------------------------------------------------- spec -> code
def norm(lines):
    out = [x for i, x in enumerate(lines) if x or (i and lines[i - 1])]
    return out[:-1] if out and not out[-1] else out


def apply_mc(card, op):
    k = op["op"]
    if k == "add":
        return guard(lambda: card.add(folded=op["f"], **{txt(op["path"]): txt(op["c"])}))
    if k == "select":
        return guard(lambda: chain_select(card, [txt(p) for p in op["chain"]]))
    if k == "delete":
        return guard(lambda: card.delete(txt(op["path"])))
    if k == "deletelist":
        return guard(lambda: card.delete([txt(p) for p in op["parts"]]))
    if k == "set":
        def f():
            s = card.select(txt(op["path"]))
            v = op["val"]
            if op["field"] == "v":
                s.visible = v
            elif op["field"] == "f":
                s.folded = v
            else:
                s.title = txt(v)
        return guard(f)
    raise AssertionError(k)


def show(op):
    o = dict(op)
    for k in ("path", "c"):
        if k in o:
            o[k] = txt(o[k])
    for k in ("chain", "parts"):
        if k in o:
            o[k] = [txt(p) for p in o[k]]
    return o


def exhaustive(ck, which):
    r = tlc(
        "SkopsCardMC",
        "SPECIFICATION Spec\nVIEW view\nCHECK_DEADLOCK FALSE\nINVARIANT InvUnique\n"
        "INVARIANT InvTocIsRender\nPROPERTY AddLocal\nPROPERTY DeleteExact\n"
        f"CONSTANT MaxLen = {4 if THOROUGH else 3}\n"
        f"CONSTANT Wide = {'TRUE' if THOROUGH else 'FALSE'}\n",
        timeout=3000,
    )
    ck.log(f"SkopsCardMC: {r.states} transitions, {r.distinct} states, {r.wall:.1f}s")
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    tmp = scratch() / "card.md"
    n = 0
    for k, row in enumerate(r.rows):
        card = new_card()
        for op in row["h"]:
            apply_mc(card, op)
        out, val = apply_mc(card, row["op"])
        want = row["out"]
        if which == "C10" and row["op"]["op"] not in ("add", "set", "delete"):
            continue
        n += 1
        case = {"history": [show(o) for o in row["h"]], "op": show(row["op"]), "spec": row}
        if which == "C09":
            if want != "any" and out != want:
                ck.violation("outcome", case, f"spec {want}, code {out}: {case['op']}")
                continue
            if want == "any":
                continue
            got = proj(card)
            if got != row["tree"]:
                ck.violation("tree-after-call", case, f"got {got}")
            if row["sel"]:
                g = proj_section(val_key(card, row["op"]), val)
                if g != row["sel"][0]:
                    ck.violation("select-result", case, f"got {g}")
        else:
            if proj(card) != row["tree"]:
                continue  # not the tree of the specification: C09 decides that
            text = card.render()
            if norm([cps(x) for x in text.split("\n")]) != row["lines"]:
                ck.violation("render-is-the-visible-tree", case, text)
            if cps(card.get_toc()) != row["toc"]:
                ck.violation("toc-lists-rendered-headings", case, card.get_toc())
            if k % 20 == 0:
                card.save(tmp if k % 40 else str(tmp))
                if tmp.read_bytes() != text.encode("utf-8"):
                    ck.violation("save-writes-rendered-text-as-utf8", case)
    ck.add("traces_validated_against_impl", n)
    ck.cov.setdefault("samples", []).append(
        {"history": [show(o) for o in r.rows[-1]["h"]], "op": show(r.rows[-1]["op"])}
    )
    if len(ck.viol):
        ck.log("spec->code replay found", len(ck.viol), "disagreements")


def val_key(card, op):
    parts = mc_parts(op["chain"])
    return parts


def mc_parts(chain):
    """key of the selected section: the last part of the last path (as the spec splits it)."""
    p = txt(chain[-1])
    out, cur, i = [], "", 0
    while i < len(p):
        if p[i] == "/" and (i == 0 or p[i - 1] != "\\"):
            out.append(cur)
            cur = ""
        else:
            cur += p[i]
        i += 1
    out.append(cur)
    return out[-1].strip().replace("\\/", "/")


# ----------------------------------------------------------------------- code -> spec
SEG = [
    "A", "B", "C", "Model", "Training Procedure", "a b", " A", "B ", "\\/", "A\\/B", "\\/A",
    "A\\/", "x\\\\/y", "\x1f", "\x1fA", "A\x1fB", "\u2028A", "\xa0B\xa0", "é", "日本", "😀", "A#B",
    "# A", "a|b", "1. x", "\tA", "\\", "a\\b", "A\\/ ", " \\/ A", "\\/\\/", "*b*", "[l](u)",
]  # fmt: skip
CONTENT = [
    "", "x", "line1\nline2", "para\n\npara2", "# not a heading", "ünï😀", "| a |", "  lead",
    "trail  ", "<b>html</b>", "```\ncode\n```", "a\r\nb", "\x1f", "with / slash",
]  # fmt: skip


class Driver:
    def __init__(self, rng, profile):
        self.rng, self.profile = rng, profile
        self.ev = []
        self.known = []
        self.card = new_card()
        self.ab = Abstract()
        self.uid = 0
        self.log("new")

    def log(self, op, out="ok", post=True, **kw):
        e = {"op": op, "out": out, **kw}
        if self.profile == "C10" and op not in ("render", "toc", "save"):
            # C10 judges rendering against the tree that is really there
            self.ev.append({"op": "observed", "out": "ok", "call": op,
                            "full": proj(self.card, self.ab, full=True)})
            return
        if post:
            e["post"] = proj(self.card, self.ab)
        self.ev.append(e)

    # ---- generators
    def seg(self, nl_ok=True):
        r = self.rng
        if r.random() < 0.7:
            return r.choice(SEG)
        return "".join(r.choice("ABab/\\ \t\x1f.é#") for _ in range(r.randint(1, 4))).replace(
            "/", "\\/"
        )

    def path(self, empty=0.06):
        r = self.rng
        if self.known and r.random() < 0.55:
            base = r.choice(self.known)
            x = r.random()
            if x < 0.5:
                return base
            if x < 0.8:
                return base + "/" + self.seg()
            return base.rsplit("/", 1)[0]
        n = r.choice([1, 1, 2, 2, 3])
        if r.random() < 0.04:
            n = r.randint(5, 9)
        segs = [self.seg() for _ in range(n)]
        if r.random() < empty:
            segs[r.randrange(n)] = r.choice(["", " ", "\t"])
        sep = r.choice(["/", "/", " / "])
        return sep.join(segs)

    def good_path(self):
        """A path all of whose names are non-empty."""
        while True:
            p = self.path(empty=0)
            if p and all(x.strip() for x in raw_parts(p)):
                return p

    def content(self):
        r = self.rng
        if r.random() < 0.5:
            self.uid += 1
            return f"content {self.uid}"
        return r.choice(CONTENT)

    # ---- operations
    def do_add(self):
        r = self.rng
        items = {}
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            items[self.path() if self.profile == "C09" else self.good_path()] = self.content()
        f = r.random() < 0.25
        out, _ = guard(lambda: self.card.add(folded=f, **items))
        self.known += list(items)
        self.log("add", out, f=f, items=[{"path": cps(p), "c": cps(c)} for p, c in items.items()])

    def do_select(self):
        r = self.rng
        chain = [self.path(0.25) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.4 and self.known:
            # split a known path into a chain, or ask for it whole
            parts = raw_parts(r.choice(self.known))
            k = r.randint(0, len(parts) - 1)
            chain = ["/".join(parts[:k])] * bool(k) + ["/".join(parts[k:])]
        out, s = guard(lambda: chain_select(self.card, chain))
        kw = {}
        if out == "ok":
            kw["sel"] = proj_section(mc_parts([cps(chain[-1])]), s, self.ab)
        self.log("select", out, chain=[cps(p) for p in chain], **kw)

    def do_delete(self):
        r = self.rng
        if r.random() < 0.5:
            p = self.path(0.25) if r.random() < 0.93 else ""
            out, _ = guard(lambda: self.card.delete(p))
            self.log("delete", out, path=cps(p))
        else:
            p = [x.strip().replace("\\/", "/") if r.random() < 0.9 else x
                 for x in raw_parts(self.path(0.25))]
            if r.random() < 0.1:
                p.append("")
            out, _ = guard(lambda: self.card.delete(p))
            self.log("deletelist", out, parts=[cps(x) for x in p])

    def do_set(self):
        r = self.rng
        if not self.known:
            return
        p = r.choice(self.known)
        out, s = guard(lambda: self.card.select(p))
        if out != "ok" or any(not x.strip() for x in raw_parts(p)):
            return
        f = r.choice(["v", "v", "f", "c", "t"])
        if f == "v":
            s.visible = v = r.random() < 0.35
        elif f == "f":
            s.folded = v = r.random() < 0.6
        elif f == "c":
            s.content = self.content()
            v = cps(s.content)
        else:
            s.title = r.choice(["Renamed", "T/T", "é"])
            v = cps(s.title)
        self.log("set", path=cps(p), field=f, val=v)

    def do_plot(self):
        r = self.rng
        items = {self.good_path(): r.choice(["fig.png", "a/b c.png", "é.svg"])
                 for _ in range(r.choice([1, 1, 2, 3]))}
        desc = r.choice([None, "", "some text", "two\nlines"])
        alt = r.choice([None, None, "alt!", ""])
        f = r.random() < 0.3
        arg = {k: (Path(v) if r.random() < 0.5 else v) for k, v in items.items()}
        out, _ = guard(lambda: self.card.add_plot(description=desc, alt_text=alt, folded=f, **arg))
        self.known += list(items)
        self.log("plot", out, f=f, desc=cps(desc or ""), alt=cps(alt or ""),
                 items=[{"path": cps(p), "file": cps(str(v))} for p, v in items.items()])

    def do_table(self):
        r = self.rng
        items, rec = {}, []
        for _ in range(r.choice([1, 1, 2])):
            p = self.good_path()
            tab, head, rows = gen_table(r)
            items[p] = tab
            rec.append({"path": p, "head": head, "rows": rows})
        desc = r.choice([None, "", "some text"])
        f = r.random() < 0.3
        out, _ = guard(lambda: self.card.add_table(description=desc, folded=f, **items))
        self.known += list(items)
        rec = {x["path"]: x for x in rec}
        self.log("table", out, f=f, desc=cps(desc or ""), items=[
            {"path": cps(p), "head": [cps(h) for h in rec[p]["head"]],
             "rows": [[cps(c) for c in row] for row in rec[p]["rows"]]} for p in items])

    def do_metrics(self):
        r = self.rng
        items = {}
        for _ in range(r.choice([1, 1, 2, 3])):
            items[r.choice(["acc", "f1", "f1 score", "é", "r|2", "new\nline", "auc", "A/B"])] = (
                r.choice([0.5, 1, "good", -2.25, 1e-20, float("nan"), "multi\nline", None, True])
            )
        p = r.choice(["Metrics", "Metrics", "Model/Eval", self.good_path()])
        desc = r.choice([None, "", "desc"])
        out, _ = guard(lambda: self.card.add_metrics(section=p, description=desc, **items))
        self.known.append(p)
        self.log("metrics", out, path=cps(p), desc=cps(desc or ""),
                 items=[[cps(k), cps(str(v))] for k, v in items.items()])

    def do_hyper(self, default=False):
        r = self.rng
        p = ("Model description/Training Procedure/Hyperparameters" if default
             else r.choice(["Hyper", "A/Hyper", self.good_path()]))
        desc = r.choice([None, "", "desc"]) if not default else None
        if not hasattr(self.card, "model") or self.card.model is None:
            self.card.model = r.choice(models())
        m = self.card.get_model()
        params = [[cps(k), cps(str(v))] for k, v in m.get_params(deep=True).items()]
        if not default:
            out, _ = guard(lambda: self.card.add_hyperparams(section=p, description=desc))
        else:
            out = "ok"
        self.known.append(p)
        self.log("hyper", out, path=cps(p), desc=cps(desc or ""), params=params,
                 post=not default)

    def do_modelplot(self, default=False):
        r = self.rng
        p = ("Model description/Training Procedure/Model Plot" if default
             else r.choice(["Diagram", "A/Diagram", self.good_path()]))
        desc = r.choice([None, "", "desc"]) if not default else None
        if not default:
            if self.card.model is None:
                self.card.model = r.choice(models())
            out, _ = guard(lambda: self.card.add_model_plot(section=p, description=desc))
        else:
            out = "ok"
        self.known.append(p)
        o2, s = guard(lambda: self.card.select(p))
        c = s.content if o2 == "ok" else ""
        pre = f"{desc}\n\n" if desc else ""
        html = c[len(pre):] if c.startswith(pre) else ""
        self.ab.add(html)
        # opaque diagram, preceded by the description
        self.log("add", out, f=False, items=[{"path": cps(p), "c": cps(pre + self.ab(html))}])

    def do_render(self):
        out, text = guard(self.card.render)
        self.log("render", out, post=False,
                 lines=[cps(x) for x in self.ab(text or "").split("\n")])

    def do_toc(self):
        out, text = guard(self.card.get_toc)
        self.log("toc", out, post=False, text=cps(text or ""))

    def do_save(self):
        p = scratch() / self.rng.choice(["c.md", "é.md"])
        if self.rng.random() < 0.3:
            p.write_text("previous content, longer than anything\n" * 50)
        out, _ = guard(lambda: self.card.save(p if self.rng.random() < 0.5 else str(p)))
        text = self.card.render()
        raw = p.read_bytes()
        for k, v in self.ab.tok.items():
            raw = raw.replace(k.encode(), v.encode())
        self.log("save", out, post=False, text=cps(self.ab(text)), bytes=list(raw))

    def template(self, model, kind):
        """start from Card(model, template=...)"""
        r = self.rng
        if kind == "skops":
            self.card = Card(model)
            tmpl = mc.SKOPS_TEMPLATE
        else:
            tmpl = {self.good_path(): self.content() for _ in range(3)}
            self.card = Card(model, template=tmpl,
                             model_diagram=r.choice(["auto", False, "Diag/Plot"]))
        self.known += list(tmpl)
        self.log("add", post=False, f=False,
                 items=[{"path": cps(p), "c": cps(c)} for p, c in tmpl.items()])
        if kind == "skops":
            self.do_hyper(default=True)
            self.do_modelplot(default=True)
        else:
            o, s = guard(lambda: self.card.select("Diag/Plot"))
            if o == "ok":
                self.ab.add(s.content)
                self.log("add", f=False,
                         items=[{"path": cps("Diag/Plot"), "c": cps(self.ab(s.content))}])


def raw_parts(p):
    import re

    return re.split(r"(?<!\\)/", p)


_M = []


def models():
    if not _M:
        from sklearn.compose import ColumnTransformer
        from sklearn.ensemble import VotingClassifier
        from sklearn.linear_model import LogisticRegression
        from sklearn.pipeline import make_pipeline
        from sklearn.preprocessing import FunctionTransformer, StandardScaler
        from sklearn.tree import DecisionTreeClassifier

        _M.extend([
            LogisticRegression(C=0.5),
            make_pipeline(StandardScaler(), DecisionTreeClassifier(max_depth=3)),
            VotingClassifier([("a", LogisticRegression()), ("b", DecisionTreeClassifier())]),
            ColumnTransformer([("s|x", FunctionTransformer(kw_args={"k": "a\nb"}), [0])]),
        ])
    return _M


def gen_table(r):
    """a table as dict or DataFrame plus the text of its header and cells"""
    import numpy as np
    import pandas as pd

    ncol, nrow = r.randint(1, 4), r.choice([0, 1, 1, 2, 3, 5])
    names = r.sample(["a", "b", "col name", "é", "x|y", "", "n\nl", "日本", " sp ", "Metric", "1"],
                     ncol)  # fmt: skip
    pool = [
        lambda: r.choice(["x", "", "two\nlines", "\n", "a|b", "cr\rlf", "crlf\r\nz", " pad ", "é😀",
                          "| row |", "<br />", "\\n", "# h", "a\n\nb", "-", ":-:"]),
        lambda: r.randint(-5, 10**6),
        lambda: r.choice([0.1, 1e300, -0.0, float("nan"), 2.5]),
        lambda: r.choice([True, False]),
        lambda: r.choice([None, [1, 2], {"k": "v\nw"}, ("t",)]),
    ]
    cols = []
    for _ in range(ncol):
        g = r.choice(pool)
        cols.append([g() for _ in range(nrow)])
    kind = r.choice(["dict", "dict", "tuple", "np", "df", "df", "dfobj", "df32", "dfint"])
    if kind in ("dict", "tuple", "np"):
        tab = {}
        for n, c in zip(names, cols):
            if kind == "tuple":
                c = tuple(c)
            elif kind == "np":
                a = np.empty(len(c), dtype=object)
                a[:] = c
                c = a
                if all(isinstance(x, float) for x in c) and len(c):
                    c = np.array(list(c), dtype=np.float32)
            tab[n] = c
    else:
        if kind == "dfobj":
            df = pd.DataFrame({n: pd.Series(c, dtype=object) for n, c in zip(names, cols)})
        else:
            df = pd.DataFrame(dict(zip(names, cols)))
        if kind == "df32":
            for n in names:
                if df[n].dtype == np.float64:
                    df[n] = df[n].astype(np.float32)
        if kind == "dfint":
            df.columns = range(len(df.columns))
        if r.random() < 0.3 and len(df):
            df.index = [f"i{k}" for k in range(len(df))]
        if r.random() < 0.15 and not df.empty:
            df = df.assign(when=pd.Timestamp("2020-01-02"), cat=pd.Categorical(["q"] * len(df)))
        tab = df
    head, rows = table_text(tab)
    return tab, head, rows


def record(profile, n, length):
    traces = []
    for k in range(n):
        rng = random.Random(f"{SEED}/{profile}/{k}")
        d = Driver(rng, profile)
        if profile == "C09":
            ops = [d.do_add] * 5 + [d.do_select] * 4 + [d.do_delete] * 3 + [d.do_set]
        elif profile == "C10":
            if k % 4 == 1:
                d.template(rng.choice(models()), "dict")
            elif k % 8 == 2:
                d.template(rng.choice(models()), "skops")
            ops = ([d.do_add] * 4 + [d.do_delete] + [d.do_set] * 4 + [d.do_plot, d.do_table]
                   + [d.do_render] * 3 + [d.do_toc] * 3 + [d.do_save] + [d.do_metrics])
        else:
            if k % 10 == 3:
                d.template(rng.choice(models()), "skops")
            ops = ([d.do_plot] * 3 + [d.do_table] * 4 + [d.do_metrics] * 3 + [d.do_hyper]
                   + [d.do_modelplot] + [d.do_render] * 5 + [d.do_add, d.do_set])
        m = rng.randint(length // 2, length)
        for _ in range(m):
            rng.choice(ops)()
        if profile != "C09":
            d.do_render()
        if profile == "C10":
            d.do_toc()
        traces.append(d.ev)
    return traces


def readable(ev):
    def f(x):
        if isinstance(x, list) and x and all(isinstance(y, int) and not isinstance(y, bool) for y in x):
            return txt(x)
        if isinstance(x, list):
            return [f(y) for y in x]
        if isinstance(x, dict):
            return {k: f(v) for k, v in x.items() if k != "post"}
        return x

    return f(ev)


def run_traces(ck, profile, n, length, extra=()):
    traces = record(profile, n, length) + list(extra)
    bad, nev, nst = validate("SkopsCardTrace", traces)
    ck.log(f"{len(traces)} traces, {nev} events validated")
    ck.add("states", nst)
    ck.add("transitions", nev)
    ck.add("traces_validated_against_impl", len(traces))
    ck.cov["events"] = nev
    for b in bad:
        t = traces[b["t"]]
        e = t[b["i"]]
        ck.violation(
            ",".join(b["bad"]), {"trace": [readable(x) for x in t[: b["i"] + 1]]},
            json.dumps(readable(e))[:400],
        )
    counts = {}
    for t in traces:
        for e in t:
            counts[e["op"] + ":" + e["out"]] = counts.get(e["op"] + ":" + e["out"], 0) + 1
    ck.cov["event_counts"] = counts
    ck.cov.setdefault("samples", []).append([readable(e) for e in traces[0][:4]])


RULE = (
    "spec->code: every transition of the bounded SkopsCard instance replayed on a real Card; "
    "code->spec: seeded random histories validated event by event by SkopsCardTrace"
)


def run_C09():
    ck = Check("C09", "model_checking", RULE)
    exhaustive(ck, "C09")
    run_traces(ck, "C09", 3000 if THOROUGH else 500, 40 if THOROUGH else 24)
    return ck.finish()


def run_C10():
    ck = Check("C10", "model_checking", RULE)
    exhaustive(ck, "C10")
    run_traces(ck, "C10", 1500 if THOROUGH else 300, 30 if THOROUGH else 20)
    return ck.finish()


def run_C14():
    ck = Check("C14", "model_checking", RULE)
    run_traces(ck, "C14", 1500 if THOROUGH else 300, 24 if THOROUGH else 16, extra=special())
    return ck.finish()


def special():
    """builders that delegate: permutation importances, fairlearn metric frames"""
    import matplotlib

    matplotlib.use("Agg")
    import numpy as np
    import pandas as pd

    out = []
    for k, (name, desc) in enumerate(
        [("Permutation Importances", None), ("A/B\\/C", "text"), ("X / Perm", "")]
    ):
        d = Driver(random.Random(k), "C14")
        f = scratch() / f"p{k}.png"

        class PI:
            importances = np.array([[0.1, 0.2], [0.0, 0.1], [0.5, 0.3]])
            importances_mean = importances.mean(axis=1)

        o, _ = guard(lambda: d.card.add_permutation_importances(
            PI, pd.Index(["a", "b", "c"]) if k else np.array(["a", "b", "c"]), plot_file=f,
            plot_name=name, description=desc))
        d.log("plot", o, f=False, desc=cps(desc or ""), alt=[],
              items=[{"path": cps(name), "file": cps(str(f))}])
        d.do_render()
        out.append(d.ev)

    class MF:
        def difference(self):
            return pd.Series({"acc": 0.1, "f1": "a\nb"})

        group_max = group_min = ratio = difference

    for k, (name, tr) in enumerate([("Fair", True), ("A/Fair", False), ("A\\/F", True)]):
        d = Driver(random.Random(k), "C14")
        o, _ = guard(lambda: d.card.add_fairlearn_metric_frame(
            MF(), table_name=name, transpose=tr, description="d"))
        fr = ["difference", "group_max", "group_min", "ratio"]
        s = {"acc": "0.1", "f1": "a\nb"}
        if tr:
            head, rows = list(s), [[s[c] for c in s] for _ in fr]
        else:
            head, rows = fr, [[s[m]] * 4 for m in s]
        d.log("table", o, f=True, desc=cps("d"), items=[
            {"path": cps(name), "head": [cps(h) for h in head],
             "rows": [[cps(c) for c in r] for r in rows]}])
        d.do_render()
        out.append(d.ev)
    return out
