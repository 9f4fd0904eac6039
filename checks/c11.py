"""C11: formatted parameter text states the summary's numbers."""
import itertools
import re

import numpy as np
from chainconsumer import Bound, ChainConsumer

from mc.engine import Space

ASSUMPTIONS = ["numbers outside the enumerated mantissa/decade grid behave like their grid neighbours"]
NUM = r"(-?\d+(?:\.(\d+))?)"
PM = re.compile(rf"^{NUM}\\pm {NUM}$")
ASYM = re.compile(rf"^{NUM}\^\{{\+{NUM}\}}_\{{-{NUM}\}}$")
POW = re.compile(r"^\\left\( (.*) \\right\) \\times 10\^\{(-?\d+)\}$")


def parse(text):
    """(form, center, upper, lower, unit of the last displayed digit)"""
    power = 0
    m = POW.match(text)
    if m:
        text, power = m.group(1), int(m.group(2))
    f = 10.0**power
    m = PM.match(text)
    if m:
        c, d1, e, d2 = m.groups()
        return "pm", float(c) * f, float(e) * f, float(e) * f, (len(d1 or ""), len(d2 or "")), power, e, e
    m = ASYM.match(text)
    if m:
        c, d1, u, d2, lo, d3 = m.groups()
        return "asym", float(c) * f, float(u) * f, float(lo) * f, (len(d1 or ""), len(d2 or ""), len(d3 or "")), power, u, lo
    return None


def check_text(p, text, b, use_pm, where):
    r = parse(text)
    if not p.expect(r is not None, "unreadable", f"{where}: {text!r} for {b}"):
        return
    form, c, u, lo, digits, power, ut, lt = r
    eu, el = b.upper - b.center, b.center - b.lower
    p.expect(len(set(digits)) == 1, "mixed precision", f"{where}: {text!r}")
    nz = [abs(v) for v in (eu, el) if v != 0]
    if nz:
        res = np.floor(np.log10(min(nz) * (1 + 1e-12)))
    elif b.center != 0:
        res = np.floor(np.log10(abs(b.center) * (1 + 1e-12)))
    else:
        res = 0
    unit = 10.0 ** (res - 1)  # the place of the second significant figure of the smaller error
    tol = 0.5501 * unit + 1e-13 * abs(b.center)
    for nm, shown, true in (("centre", c, b.center), ("upper error", u, eu), ("lower error", lo, el)):
        p.expect(abs(shown - true) <= tol, f"wrong {nm}", lambda: f"{where}: {text!r} shows {shown} for {true} ({b})")
    if use_pm:
        p.expect((form == "pm") == (ut == lt), "plus-minus form", f"{where}: {text!r}")
    else:
        p.expect(form == "asym", "plus-minus form", f"{where}: {text!r}")
    p.expect(len(f"{abs(c / 10.0**power):.0f}") < 17, "power of ten", f"{where}: {text!r}")


MANT = (1.0, 1.05, 1.449, 2.5, 4.95, 5.04, 9.49, 9.95, 9.999)
CENT = (0.0, 1.0, -1.0, 1.25, -3.349, 6.05, 9.96, -9.9995)


def centers(decade):
    yield 0.0
    for k in (-4, -2, -1, 0, 1, 2, 4):
        for m in CENT[1:]:
            yield m * 10.0 ** (decade + k)


def gen_single(ch):
    return dict(low=ch.pick("low", (*MANT, 0.0)), decade=ch.pick("decade", (0, *range(1, 8), *range(-1, -8, -1), 12, -12)),
                ratio=ch.pick("ratio", (0, 1, -1, 2, -2, 3, -3)))


def run_single(case, p):
    an = ChainConsumer().analysis
    for um in (*MANT, 0.0):
        for c in centers(case["decade"]):
            el = case["low"] * 10.0 ** case["decade"]
            eu = um * 10.0 ** (case["decade"] + case["ratio"])
            b = Bound(lower=c - el, center=c, upper=c + eu)
            text = an.get_parameter_text(b)
            p.op()
            check_text(p, text, b, True, "single")
            p.obs(text)
            p.expect(an.get_parameter_text(b, wrap=True) == f"${text}$", "wrap", text)
            p.expect(an.get_parameter_text(b, wrap=True, label="x_1") == f"$x_1 = {text}$", "label+wrap", text)
            p.expect(an.get_parameter_text(b, label=r"\Omega_m") == rf"\Omega_m = {text}", "label", text)
            p.expect(an.get_parameter_text([b]) == text, "one-element list", text)
            p.expect(an.get_parameter_text([b], wrap=True, label="q") == f"$q = {text}$", "one-element list", text)


def gen_symmetric(ch):
    return dict(err=ch.pick("err", MANT), decade=ch.pick("decade", (0, *range(1, 8), *range(-1, -8, -1))),
                nudge=ch.pick("nudge", (0.0, 0.004, -0.004, 0.02, 0.06, 0.2)))


def run_symmetric(case, p):
    """Nearly symmetric errors, around the point where the plus-minus form starts."""
    an = ChainConsumer().analysis
    e = case["err"] * 10.0 ** case["decade"]
    for c in centers(case["decade"]):
        for sign in (1, -1):
            b = Bound(lower=c - e * (1 + max(0, sign) * case["nudge"]), center=c, upper=c + e * (1 + max(0, -sign) * case["nudge"]))
            text = an.get_parameter_text(b)
            p.op()
            p.obs(text)
            check_text(p, text, b, True, "symmetric")


def gen_list(ch):
    return dict(n=ch.pick("n", (2, 3, 4, 11)), decade=ch.pick("decade", (0, 1, 2, 3, -1, -2, -4)), holes=ch.pick("holes", ((), (0,), (1,), (0, 1))),
                label=ch.pick("label", (None, "x", r"\theta")), wrap=ch.flag("wrap"), kind=ch.pick("kind", ("list", "tuple")),
                equal=ch.flag("equal"))


def run_list(case, p):
    an = ChainConsumer().analysis
    bounds, keep = [], []
    for i in range(case["n"]):
        f = 10.0 ** case["decade"]
        b = Bound(lower=(3 * i - 1.2) * f, center=3.0 * i * f, upper=(3 * i + (1.2 if case["equal"] else 0.7)) * f)
        if i in case["holes"]:
            b = Bound()
        else:
            keep.append(b)
        bounds.append(b)
    arg = tuple(bounds) if case["kind"] == "tuple" else bounds
    text = an.get_parameter_text(arg, wrap=case["wrap"], label=case["label"])
    p.op()
    p.obs(text)
    lines = text.split("\n") if text else []
    if case["label"]:
        if keep:
            p.equal(lines[0], f"${case['label']}$" if case["wrap"] else case["label"], "label line")
            lines = lines[1:]
    p.equal(len(lines), len(keep), "band count", repr(text))
    for k, (ln, b) in enumerate(zip(lines, keep), 1):
        head = f"I{k}: "
        if p.expect(ln.startswith(head), "band numbering", ln):
            body = ln[len(head):]
            if case["wrap"]:
                p.expect(body.startswith("$") and body.endswith("$"), "wrap", ln)
                body = body[1:-1]
            check_text(p, body, b, False, "list")


def gen_none(ch):
    return dict(form=ch.pick("form", ("None", "lower", "center", "upper", "lower+upper", "all", "list of none", "single none list")),
                wrap=ch.flag("wrap"), label=ch.pick("label", (None, "x")))


def run_none(case, p):
    an = ChainConsumer().analysis
    full = dict(lower=1.0, center=2.0, upper=3.0)
    f = case["form"]
    if f == "None":
        arg = None
    elif f == "all":
        arg = Bound()
    elif f == "list of none":
        arg = [Bound(), Bound()]
    elif f == "single none list":
        arg = [Bound()]
    else:
        arg = Bound(**{k: (None if k in f.split("+") else v) for k, v in full.items()})
    p.op()
    p.equal(p.obs(an.get_parameter_text(arg, wrap=case["wrap"], label=case["label"])), "", "missing bounds", str(arg))


def spaces(tier):
    return [
        Space("single", gen_single, run_single, note="all (lower error) x (upper error) x (centre) mantissas and decades"),
        Space("symmetric", gen_symmetric, run_symmetric, note="nearly equal errors around the plus-minus boundary"),
        Space("list", gen_list, run_list, note="multi-band lists: length, holes, label, wrap, container"),
        Space("none", gen_none, run_none, note="missing limits"),
    ]
