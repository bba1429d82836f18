"""C25: XmlToDict, convert_xml_to_dict, sanitize_msxml_float against reference models."""
import ast
import itertools
import re
import xml.etree.ElementTree as ET

import numpy as np

from mc.core import Part, Skip, product
from mc.sig import *

PROPERTY = "C25"
ASSUMPTIONS = [
    "attribute names do not collide with child tags after the prefix is added",
    "text between child elements is considered only when the element starts with text "
    "(documented: options concern elements having both text and children)",
    "convert_xml_to_dict: siblings with different tags and text elements without attributes; "
    "sanitize_msxml_float: text of single elements"]


def X():
    from rsciio.utils import xml

    return xml


# --------------------------------------------------------------- reference model of XmlToDict
def val(s):
    try:
        return ast.literal_eval(s)
    except (ValueError, SyntaxError):
        return s


def model(node, o):
    """-> list of (key, value) the node contributes to its parent."""
    kids = [kv for ch in node["kids"] for kv in model(ch, o)]
    text = (node["text"] or "").strip()
    attrs = node["attrs"]
    if not node["kids"]:
        if not attrs:
            v = val(text) if text else None
        else:
            v = {k: val(a) for k, a in attrs.items()}
            if text:
                v[o["text"]] = val(text)
    else:
        v, order = {}, []
        for k, x in kids:
            v.setdefault(k, []).append(x)
        v = {k: x[0] if len(x) == 1 else x for k, x in v.items()}
        for k, a in attrs.items():
            v[o["pre"] + k] = val(a)
        if text:
            tails = [(ch["tail"] or "").strip() for ch in node["kids"]]
            if o["mode"] == "first":
                v[o["text"]] = val(text)
            elif o["mode"] in ("cat", "list"):
                if any(tails):
                    pieces = [text] + tails
                    v["#interchild_text"] = "".join(pieces) if o["mode"] == "cat" else pieces
                else:
                    v[o["text"]] = val(text)
    if node["tag"] in o["flat"] and isinstance(v, dict):
        return list(v.items())
    return [(node["tag"], v)]


def element(node):
    e = ET.Element(node["tag"], node["attrs"])
    e.text = node["text"]
    for k in node["kids"]:
        ch = element(k)
        ch.tail = k["tail"]
        e.append(ch)
    return e


def N(tag, kids=(), text=None, attrs=None, tail=None):
    return dict(tag=tag, kids=list(kids), text=text, attrs=attrs or {}, tail=tail)


def exact(a, b):
    """Equality that distinguishes 1, 1.0, True and dictionary/list order."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(exact(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    return a == b or a != a and b != b


def norm(d):
    """Plain dict with sorted keys where the order carries no information."""
    if isinstance(d, dict):
        return {k: norm(d[k]) for k in sorted(d)}
    if isinstance(d, list):
        return [norm(x) for x in d]
    return d


OPTS = [dict(pre=p, text=x, flat=f, mode=m) for p in ("@", "XmlClass") for x in ("#value", "T")
        for f in ((), ("F",), ("F", "a")) for m in ("skip", "first", "cat", "list")]


def f_tree(t, c):
    tree = c["tree"]
    e = element(tree)
    src = ET.tostring(e)
    for o in c.get("opts") or OPTS:
        flat = {0: None, 1: list(o["flat"])}[bool(o["flat"])]
        if len(o["flat"]) == 1 and o["pre"] == "@":
            flat = o["flat"][0]
        x = X().XmlToDict(dub_attr_pre_str=o["pre"], dub_text_str=o["text"], tags_to_flatten=flat,
                          interchild_text_parsing=o["mode"])
        t.op("dictionarize")
        for root in ((e, ET.fromstring(src)) if not c.get("opts") else (e,)):
            got = x.dictionarize(root)
            pairs = model(tree, o)
            want = dict(pairs) if len(dict(pairs)) == len(pairs) else None
            if want is None:
                raise Skip("ambiguous root")
            t.state(repr(got))
            t.check(exact(norm(want), norm(got)), lambda: "%s with %s: expected %r got %r" % (src, o, want, got))
        t.check(ET.tostring(e) == src, "the document was changed")


def f_ignore(t, c):
    e = element(c["tree"])
    for o in OPTS[:4]:
        x = X().XmlToDict(dub_attr_pre_str=o["pre"], dub_text_str=o["text"], interchild_text_parsing=o["mode"])
        t.op("dictionarize ignore_children")
        got = x.dictionarize(e, ignore_children=True)
        want = dict(model(dict(c["tree"], kids=[]), o))
        t.check(exact(norm(want), norm(got)), lambda: "ignore_children: expected %r got %r" % (want, got))


# --------------------------------------------------------------- convert_xml_to_dict
def model2(node):
    if node["text"] and not node["kids"]:
        return node["text"]
    d = dict(node["attrs"])
    for k in node["kids"]:
        d[k["tag"]] = model2(k)
    return d


def f_convert(t, c):
    e = element(c["tree"])
    want = {e.tag: model2(c["tree"])}
    for src in (e, ET.tostring(e, encoding="unicode")):
        t.op("convert_xml_to_dict")
        got = X().convert_xml_to_dict(src).to_dict()
        t.state(repr(got))
        t.check(exact(norm(want), norm(got)), lambda: "%s: expected %r got %r" % (ET.tostring(e), want, got))


# --------------------------------------------------------------- sanitize
def f_sanitize(t, c):
    raw = ("<a><b x=\"1,5\">%s</b>%s</a>" % (c["text"], c["tail"])).encode()
    t.op("sanitize_msxml_float")
    got = X().sanitize_msxml_float(raw)
    t.state(got)
    txt = c["text"]
    m = re.fullmatch(r"(-?[0-9]+),([0-9]*(?:[Ee]-?[0-9]*)?)", txt)
    new = m.group(1) + "." + m.group(2) if m else txt
    tm = re.fullmatch(r"(-?[0-9]+),([0-9]*(?:[Ee]-?[0-9]*)?)", c["tail"])
    tail = tm.group(1) + "." + tm.group(2) if tm else c["tail"]
    want = ("<a><b x=\"1,5\">%s</b>%s</a>" % (new, tail)).encode()
    t.check(got == want, lambda: "%r became %r expected %r" % (raw, got, want))
    t.check(X().sanitize_msxml_float(got) == got, "not idempotent")


# --------------------------------------------------------------- enumeration
TEXTS = [None, "", "  ", "x", "1", "1.5", "-2", "1e3", "True", "None", "0x10", "8842_80x", "1_000", "'q'", "[1, 2]", "(1,)", "{'a': 1}",
         "01", "1,5", " 7 ", "a b", "\n 3 \n", "é", "1 2", "nan", "b'x'", "3+4j", "-", "\"1\"", "{[]: 1"]


def shapes(n):
    """All ordered rooted trees with n nodes (as nested tuples)."""
    if n == 1:
        return [()]
    out = []

    def forests(k):
        if k == 0:
            return [()]
        r = []
        for first in range(1, k + 1):
            for a in shapes(first):
                for rest in forests(k - first):
                    r.append((a,) + rest)
        return r

    return forests(n - 1)


def label(shape, it):
    tag, text, attrs, tail = next(it)
    kids = [label(s, it) for s in shape]
    return N(tag, kids, text, dict(attrs), tail)


def trees(n, labels, rootlabels=None):
    for sh in shapes(n):
        for ls in itertools.product(*([rootlabels or labels] + [labels] * (n - 1))):
            yield label(sh, iter(ls))


def parts(tier):
    th = tier == "thorough"
    out = []
    full = [(tag, tx, at, tl) for tag in ("a", "b", "F") for tx in (None, "x", "1") for at in ((), (("k", "1"),))
            for tl in (None, "t")]
    one = [dict(tree=N("r", [], tx, at)) for tx in TEXTS for at in ({}, {"k": "1"}, {"k": "x", "l": "[1]"})]
    one += [dict(tree=N("r", [N("a", [], tx, at)] + ex)) for tx in TEXTS for at in ({}, {"k": tx or ""})
            for ex in ([], [N("b", [], "1")], [N("a", [], "2")])]
    one += [dict(tree=N("r", [N("a", [], "1", {}, tl)], tx)) for tx in TEXTS for tl in TEXTS]
    out.append(Part("values", one, f_tree, "every text and attribute spelling at the root, as single and as repeated child"))
    out.append(Part("trees2", [dict(tree=x) for x in trees(2, full)], f_tree, "all labelled trees with 2 nodes"))
    lab3 = [l for l in full if l[3] is None or l[2] == ()] if not th else full
    lab3 = [l for l in lab3 if not (l[1] == "x" and l[2])]
    o3 = [o for o in OPTS if o["pre"] == "@" and o["text"] == "#value"]
    root = [("a", None, (), None), ("r", "x", (("k", "1"),), None), ("F", "1", (), None)]
    out.append(Part("trees3", [dict(tree=x, opts=o3) for x in trees(3, lab3, root)], f_tree, "all labelled trees with 3 nodes"))
    lab4 = [("a", None, (), None), ("a", "1", (), None), ("b", "x", (("k", "2"),), "t"), ("F", None, (), "t"), ("F", "y", (("k", "2"),), None)]
    out.append(Part("trees4", [dict(tree=x, opts=o3) for x in trees(4, lab4, root)], f_tree, "all labelled trees with 4 nodes"))
    lab5 = lab4[:2] + lab4[3:4]
    out.append(Part("trees5", [dict(tree=x, opts=o3[1:2] + o3[5:6] + o3[9:10]) for x in trees(5 if not th else 6, lab5, root[:1])], f_tree,
                    "all labelled trees with 5 (6) nodes"))
    out.append(Part("ignore", [dict(tree=x) for x in trees(2, full[:12], full)], f_ignore, "ignore_children"))
    cv = []
    for ws in (None, "\n  "):
        for n in (1, 2, 3, 4):
            for sh in shapes(n):
                for tx in itertools.product(["1", "some text", None, "  "], repeat=n):
                    for at in (False, True):
                        cnt = itertools.count()

                        def build(s):
                            i = next(cnt)
                            kids = [build(k) for k in s]
                            text = ws if kids else tx[i]
                            attrs = {"k": "v%d" % i} if at and (kids or not text) else {}
                            return N("t%d" % i, kids, text, attrs, ws)
                        cv.append(dict(tree=build(sh)))
    out.append(Part("convert", cv, f_convert, "documents with distinct sibling tags, indented or not"))
    alpha = ["1", "0", ",", "-", "E", "e", ".", " ", "x"]
    tx = ["".join(p) for r in range(0, 6 if th else 5) for p in itertools.product(alpha, repeat=r)]
    tx += ["12,5", "-8,843E-7", "8,843E7", "1,2,3", "1,", ",5", "-,5", "1,5E", "1,5E-", "12345,678e-12", "1 ,5", "1, 5", "a1,5", "1,5a"]
    out.append(Part("sanitize", [dict(text=x, tail=y) for x in tx for y in ("", "1,5", "x")], f_sanitize,
                    "all texts up to 4 (5) characters of the number alphabet"))
    return out
