"""Y01: align_markdown_tables.py on generated documents whose structure is known."""
import contextlib
import io
import os
import re
import shutil
import pyrt
from pyrt import prop
from hypothesis import strategies as st

mdt = pyrt.load("tools/align_markdown_tables.py", "align_markdown_tables")
I = st.integers
FENCEY = re.compile(r"^\s*(`{3,}|~{3,})")
ALIGN = [":--", "--:", ":-:", "---", "-", ":-", "-:", ":---------:", "-----", ":----", "-----:"]


def trim(s):
    return s.strip(" \t")


def split_ref(row):
    """Reference: the cells of a table row, a backslash escapes the next character."""
    parts, cur, esc = [], "", False
    for ch in trim(row):
        if ch == "|" and not esc:
            parts.append(cur)
            cur = ""
            continue
        cur += ch
        esc = ch == "\\" and not esc
    parts.append(cur)
    if len(parts) > 1 and trim(parts[0]) == "" and trim(row).startswith("|"):
        parts = parts[1:]
    if len(parts) > 1 and parts[-1] == "":
        parts = parts[:-1]
    return [trim(p) for p in parts]


def bars(row):
    """Positions of the pipes that separate cells."""
    r, esc = [], False
    for i, ch in enumerate(row):
        if ch == "|" and not esc:
            r.append(i)
        esc = ch == "\\" and not esc
    return r


def mark(cell):
    return (cell.startswith(":"), cell.endswith(":"))


CELL_PIECES = ["a", "bb", "word", " ", "  x", "\\|", "\\\\", "\\a", "`", "``", "-", ":", "é", "日", "0", "*", "<br>", "---", "&#124;", "~"]


@st.composite
def cell(draw):
    s = "".join(draw(st.lists(st.sampled_from(CELL_PIECES), max_size=draw(st.sampled_from([0, 1, 2, 3, 3, 8])))))
    if draw(I(0, 9)) == 0:
        s += "\\"
    return trim(s)


def odd_backslashes(s):
    return (len(s) - len(s.rstrip("\\"))) % 2 == 1


def row_text(draw, cells, indent):
    """Renders cells in one of the many legal ways; None if not possible."""
    lead = draw(I(0, 3)) != 0 or cells[0] == ""
    trail = draw(I(0, 3)) != 0 or cells[-1] == ""
    if len(cells) == 1 and not lead and not trail:
        lead = True
    s = ""
    for i, c in enumerate(cells):
        if i or lead:
            s += "|"
        s += draw(st.sampled_from(["", " ", " ", "   ", "\t"])) if (i or lead) else ""
        s += c
        post = draw(st.sampled_from(["", " ", " ", "    ", "\t"]))
        s += " " if odd_backslashes(c) and not post else post
    if trail:
        s += "|"
    s += draw(st.sampled_from(["", "", "", " ", "  "]))
    return indent + s


@st.composite
def table(draw):
    indent = draw(st.sampled_from(["", "", "", " ", "  ", "   "]))
    n = draw(I(1, 4))
    head = [draw(cell()) for _ in range(n)]
    delim = [draw(st.sampled_from(ALIGN)) for _ in range(n)]
    if all(re.match(r"^:?-+:?$", c) for c in head):
        head[0] = "h"
    body = []
    for _ in range(draw(I(0, 4))):
        k = draw(st.sampled_from([n, n, n, max(1, n - 1), n + 1]))
        body.append([draw(cell()) for _ in range(k)])
    rows = [head, delim] + body
    lines = []
    for r in rows:
        t = row_text(draw, r, indent)
        if FENCEY.match(t):
            t = indent + "|" + t.strip(" ") + ("" if not t.rstrip(" \t").endswith("|") else "")
        lines.append(t)
    return ("table", lines, rows, indent)


PLAIN = st.sampled_from(["text", "# Title", "- item", "", "> | q | r |", "a `b` c", "1. x", "    code", "trailing  ", "\ttab", "--- ---", "not a table ---", "<!-- c -->", "\\", "日本", "a\x0bb", "a\u2028b | c\u2028"])
PIPEY = st.sampled_from(["a | b", "| x", "x | y | z", "``` inline ``` | x", "```` a``b ```` |", "  p |q"])


@st.composite
def fence(draw, last):
    ch = draw(st.sampled_from("`~"))
    n = draw(I(3, 5))
    indent = draw(st.sampled_from(["", "", " ", "  ", "   "]))
    info = draw(st.sampled_from(["", "", "cpp", " md ", "sh title=\"a | b\"", "x~~"]))
    lines = [indent + ch * n + info]
    other = "~" if ch == "`" else "`"
    for _ in range(draw(I(0, 6))):
        lines.append(draw(st.one_of(
            st.sampled_from(["| not | a |", "|-|-|", "| real | table |", "a|b", "-|-", "", "x", ch * (n - 1), other * n, other * (n + 1) + "py"]),
            st.sampled_from([ch * n + "cpp", ch * (n + 1) + " x", ch * n + " | a", "  " + ch * n + "py"]),
        )))
    if not (last and draw(st.booleans())):
        lines.append(indent + ch * (n + draw(I(0, 2))) + draw(st.sampled_from(["", "", " ", "  "])))
    return ("fence", lines)


@st.composite
def document(draw):
    blocks = []
    k = draw(I(1, 5))
    for i in range(k):
        kind = draw(st.sampled_from(["table", "table", "fence", "plain", "pipey"]))
        if kind == "table":
            b = draw(table())
        elif kind == "fence":
            b = draw(fence(i == k - 1))
        elif kind == "plain":
            b = ("plain", draw(st.lists(PLAIN, min_size=1, max_size=3)))
        else:
            b = ("plain", draw(st.lists(PIPEY, min_size=1, max_size=2)))
        pipey = b[0] == "table" or (b[0] == "plain" and "|" in b[1][0])
        if blocks and pipey and blocks[-1][0] == "table" and not (b[0] == "fence"):
            blocks.append(("plain", [draw(st.sampled_from(["", "", "para", "   "]))]))
        blocks.append(b)
    tail = draw(st.sampled_from([[""], [""], [], ["", ""]]))
    if tail:
        blocks.append(("plain", tail))
    return blocks


def flat(blocks):
    return [l for b in blocks for l in b[1]]


def check_output(c, blocks, out_lines, eols=None):
    c.eq(len(out_lines), len(flat(blocks)), "number of lines")
    at = 0
    for b in blocks:
        got = out_lines[at:at + len(b[1])]
        at += len(b[1])
        if b[0] != "table":
            c.eq(got, b[1], "lines outside tables (%s)" % b[0])
            continue
        _, lines, rows, indent = b
        ncols = max(len(r) for r in rows)
        width = [max([3] + [len(r[k]) for i, r in enumerate(rows) if i != 1 and k < len(r)]) for k in range(ncols)]
        want_bars = [len(indent)]
        for w in width:
            want_bars.append(want_bars[-1] + w + 3)
        for i, (line, cells) in enumerate(zip(got, rows)):
            c.check(line.startswith(indent + "|"), "indentation of %r changed" % line)
            c.eq(bars(line), want_bars, "pipes of row %d %r of the table %r" % (i, line, got))
            g = split_ref(line)
            if i == 1:
                for k in range(ncols):
                    m = mark(rows[1][k]) if k < len(rows[1]) else (False, False)
                    c.check(re.match(r"^:?-+:?$", g[k]) and mark(g[k]) == m and len(g[k]) == width[k], "alignment marker %d of %r was %r" % (k, line, rows[1]))
                continue
            c.eq(g, cells + [""] * (ncols - len(cells)), "cells of row %d" % i)
            for k, text in enumerate(g):
                field = line[want_bars[k] + 1:want_bars[k + 1]]
                pre = len(field) - len(field.lstrip(" ")) - 1
                post = len(field) - len(field.rstrip(" ")) - 1
                al = mark(rows[1][k]) if k < len(rows[1]) else (False, False)
                if text == "":
                    continue
                if al == (True, True):
                    c.check(abs(pre - post) <= 1, "not centered: %r" % field)
                elif al == (False, True):
                    c.check(post == 0, "not right aligned: %r" % field)
                else:
                    c.check(pre == 0, "not left aligned: %r" % field)


def trivial(blocks):
    return not any(b[0] == "table" for b in blocks) or not any(b[0] != "table" for b in blocks)


@prop(6000, 120000, "documents of paragraphs, fences and tables in all legal spellings; non-trivial: a table and something else")
def align(c):
    blocks = c.draw(document())
    text = "\n".join(flat(blocks))
    c.case(text)
    if not trivial(blocks):
        c.nontrivial()
    for b in blocks:
        if b[0] == "table":
            for line, cells in zip(b[1], b[2]):
                assert split_ref(line) == cells, (line, cells)  # the generator and the reference agree
    out = mdt.align_text(text)
    check_output(c, blocks, out.split("\n"))
    c.eq(mdt.align_text(out), out, "aligning again changes the text")


@prop(4000, 80000, "arbitrary text over table and fence characters; non-trivial: some line changes")
def arbitrary(c):
    line = st.one_of(st.text(alphabet="|-:`~\\ab ", max_size=8), st.sampled_from(["|-|-|", "-|-", "|:-", "```", "~~~", "| a | b |", "a|b", ""]))
    text = "\n".join(c.draw(st.lists(line, max_size=9)))
    c.case(text)
    out = mdt.align_text(text)
    if out != text:
        c.nontrivial()
    a, b = text.split("\n"), out.split("\n")
    c.eq(len(b), len(a), "number of lines")
    for x, y in zip(a, b):
        # Whatever is taken for a table: only spaces, pipes and the delimiter's dashes may come or go.
        c.eq(re.sub(r"[ |\-]", "", y), re.sub(r"[ |\-]", "", x), "characters of %r -> %r" % (x, y))
        if x != y:
            c.check("|" in x, "a line without a pipe changed: %r" % x)
    c.eq(mdt.align_text(out), out, "aligning again changes the text")


@prop(1200, 20000, "one to four files, aligned or not, LF or CRLF, sometimes missing, check mode or not; non-trivial: both a changing and an unchanging file")
def files(c):
    d = os.path.join(pyrt.scratch(), "f")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    check = c.draw(st.booleans())
    n = c.draw(I(1, 4))
    plan = []
    for i in range(n):
        blocks = c.draw(document())
        eol = c.draw(st.sampled_from(["\n", "\n", "\r\n"]))
        text = "\n".join(flat(blocks))
        if c.draw(st.booleans()):
            text = mdt.align_text(text)
        p = os.path.join(d, "f%d.md" % i)
        plan.append((p, blocks, eol, text))
        with open(p, "wb") as f:
            f.write(text.replace("\n", eol).encode())
    missing = c.draw(I(0, 9)) == 0
    bad = c.draw(I(0, 9)) == 0
    c.case((check, missing, bad, [(e, t) for _, _, e, t in plan]))
    args = (["--check"] if check else []) + [p for p, _, _, _ in plan]
    if missing:
        args.append(os.path.join(d, "none.md"))
    if bad:
        with open(os.path.join(d, "bad.md"), "wb") as f:
            f.write(b"| a | b |\n|-|-|\n| \xff | c |\n")
        args.append(os.path.join(d, "bad.md"))
    err, out = io.StringIO(), io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
        rc = mdt.main(args)
    if missing or bad:
        c.eq(rc, 2, "exit code with an unreadable file")
    want = [p for p, _, _, t in plan if mdt.align_text(t) != t]
    if 0 < len(want) < n:
        c.nontrivial()
    for p, blocks, eol, text in plan:
        with open(p, "rb") as f:
            got = f.read()
        w = text if check else mdt.align_text(text)
        c.eq(got, w.replace("\n", eol).encode(), "%s after %s" % (os.path.basename(p), "check" if check else "reformat"))
    if missing or bad:
        return
    c.eq(rc, 1 if want else 0, "exit code")
    said = [l.split()[-1] for l in err.getvalue().splitlines()]
    c.eq(said, want, "reported files")
