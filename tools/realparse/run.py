#!/usr/bin/env python3
"""Compares the html5ever stand-in with the real html5ever 0.26 that a build in
/opt/veriftools left behind: every token string of each alphabet up to a bound,
in a document and in fragments of several contexts. (`select` is left out: its
rules changed after 0.26.)

usage: run.py [file...]   NUL-separated inputs instead of the enumeration"""
import itertools, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
DEPS = "/opt/veriftools/verus/deps"
STAND = os.path.join(HERE, "../../mc/hot/target/release/mc-hot")

def tags(s, ends=True):
    out = []
    for t in s.split():
        out.append(f"<{t}>")
        if ends:
            out.append(f"</{t.split()[0]}>")
    return out
SPACES = [
    # (depth, tokens, contexts)
    (4, tags("b p a div") + ["x", " "], ["body", "div"]),
    (5, tags("b i p") + ["x"], ["body"]),
    (4, ["<b>", "</b>", "<b id=1>", "<i>", "</i>", "<p>", "</p>", "<div>", "x"], ["body"]),
    (6, ["<b>", "</b>", "<b>", "<p>", "x"][:4], ["body"]),
    (4, tags("table tr td") + ["x", " ", "<b>", "<p>"], ["body", "table", "tr"]),
    (4, ["<table>", "</table>", "<tr>", "<td>", "<caption>", "</caption>", "<colgroup>", "<col>", "<tbody>", "</tbody>", "x", "<!--c-->"], ["body", "tbody"]),
    (3, tags("table caption colgroup tbody tfoot thead tr td th") + ["<col>", "x", " ", "<b>", "<input type=hidden>", "<form>", "<style>s</style>", "<svg>"], ["body", "td", "colgroup", "caption", "template"]),
    (4, tags("template table tr") + ["<td>", "x", "<div>", " "], ["body", "template"]),
    (3, tags("template") + ["<col>", "<caption>", "<td>", "<tr>", "<tbody>", "<html a=1>", "<body b=1>", "<b>", "</b>", "x", "<title>", "</title>", "<head>"], ["body", "template"]),
    (4, tags("html head body") + ["x", " ", "<!--c-->", "<p>", "<title>t</title>"], ["body"]),
    (3, tags("html head body title noscript frameset script") + ["<!doctype html>", "<meta>", "<frame>", "<noframes>n</noframes>", "x", " ", "\n", "<br>", "</br>", "</p>", "<!--c-->", "<?pi?>"], ["body", "head", "html", "frameset"]),
    (4, ["<frameset>", "</frameset>", "<frame>", "</html>", "</body>", "x", " ", "<!--c-->", "<noframes>", "<p>"], ["body", "frameset"]),
    (4, tags("svg title p foreignObject") + ["<g/>", "x", "<![CDATA[d]]>"], ["body"]),
    (4, tags("math mi annotation-xml svg") + ["<p>", "x", "<mglyph>", "<annotation-xml encoding=text/HTML>"], ["body"]),
    (3, tags("svg math desc mtext b p") + ["<font>", "<font color=r>", "<g xlink:href=h xmlns=n viewbox=v>", "<mi definitionurl=d xml:lang=l>", "<br>", "</br>", "\0", "x", "<script>", "</script>", "<lineargradient>"], ["body"]),
    (4, tags("ul li p") + ["<dl>", "<dt>", "<dd>", "x", "<div>"], ["body"]),
    (3, tags("ruby rb rt rtc rp p") + ["x"], ["body"]),
    (3, tags("h1 h2 p div button form") + ["x", "<input>", "<hr>"], ["body", "form"]),
    (4, tags("button p b") + ["x", "<form>", "</form>", "<div>", "</div>"], ["body"]),
    (4, tags("a b nobr") + ["x", "<p>", "<object>", "</object>"], ["body"]),
    (3, tags("applet marquee object b p td") + ["<image>", "<img>", "<area>", "<param>", "x"], ["body"]),
    (3, tags("pre listing textarea title xmp iframe noembed noframes style plaintext") + ["\n", "x", "<!--", "-->", "&amp;"], ["body", "textarea", "title", "style", "xmp", "plaintext"]),
    (5, ["<script>", "</script>", "<!--", "-->", "x", "<", "</", "-", "<SCRIPT/"], ["body", "script"]),
    (5, ["<!--", "-", "!", ">", "x", "--"], ["body"]),
    (5, ["<", "/", "!", "?", "a", ">", " ", "="], ["body"]),
    (4, ["<a ", "b", "=", "'", '"', " ", "/", ">", "&amp", ";", "&lt=", "\r\n"], ["body"]),
    (4, ["&", "#", "x", "6", "amp", "lt", ";", "not", "it", "in", "0", "128"], ["body"]),
    (3, ["<!DOCTYPE", " ", "html", ">", " PUBLIC '-//W3C//DTD HTML 4.01 Frameset//'", " SYSTEM 's'", "<p><table>", "x"], ["body"]),
    (6, ["<!DOCTYPE", " ", "html", ">", " PUBLIC ", "'-//W3C//DTD XHTML 1.0 Frameset//'", "x<p><table>"], ["body"]),
    (2, tags("address article aside blockquote center details dialog dir dl fieldset figcaption figure footer header hgroup main menu nav ol section summary ul video audio canvas label span custom-el em strong code small s u tt big strike font wbr embed source track keygen base link isindex") + ["<p>", "x", "</p>"], ["body"]),
    (4, tags("math annotation-xml p b") + ["<annotation-xml encoding=text/html>", "<annotation-xml encoding=application/xhtml+xml>", "<i>", "x"], ["body"]),
    (4, tags("math mi svg desc foreignObject b") + ["<p>", "</p>", "<table>"], ["body"]),
    (5, ["<a>", "</a>", "<b>", "<p>", "<div>", "</p>", "x"], ["body"]),
    (5, ["<table>", "<b>", "</b>", "<a>", "x", "<td>", "</table>"], ["body"]),
]

def build():
    out = os.environ.get("REALPARSE_BIN", os.path.join(tempfile.gettempdir(), "realparse"))
    subprocess.check_call(["rustc", "+1.98.1", "--edition", "2021", "-O", "-L", DEPS, "--extern",
        f"html5ever={DEPS}/libhtml5ever-7ac6997b22f02159.rlib", os.path.join(HERE, "real.rs"), "-o", out])
    return out
def run(cmd, ins):
    r = subprocess.run(cmd, input="\0".join(ins).encode(), capture_output=True)
    if r.returncode:
        print(cmd, "failed", r.stderr.decode()[-400:])
    return r.stdout.decode().split("\n")
def main():
    real = build()
    total = bad = 0
    if sys.argv[1:]:
        spaces = [(None, open(f).read().split("\0"), ["body"]) for f in sys.argv[1:]]
    else:
        spaces = SPACES
    for depth, toks, ctxs in spaces:
        if depth is None:
            ins = toks
        else:
            # NUL separates the inputs, so it stays out of them.
            toks = [t for t in dict.fromkeys(toks) if "\0" not in t]
            ins = ["".join(c) for d in range(1, depth + 1) for c in itertools.product(toks, repeat=d)]
            # 0.26 loses a tag whose attribute value starts after a CRLF.
            ins = [i for i in ins if "=\r\n" not in i]
        for ctx in ctxs:
            n = 0
            for at in range(0, len(ins), 50000):
                part = ins[at:at + 50000]
                a, b = run([real, ctx], part), run([STAND, "parse", ctx], part)
                for i, x, y in zip(part, a, b):
                    total += 1
                    if x != y:
                        n += 1
                        if n <= 4:
                            print(f"DIFF [{ctx}] {i!r}\n   real  {x}\n   stand {y}")
            bad += n
            print(f"{len(ins)} inputs, depth {depth}, {len(toks)} tokens, context {ctx}: {n} differ", flush=True)
    print(f"TOTAL {total} inputs, {bad} differ")
main()
