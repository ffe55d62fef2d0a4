"""Verus units: functions cut out of /repo's current source, with contracts and loop invariants
spliced in, discharged by Verus on every run.

verus/<unit>.vrs is a Verus file with directives:

  //@use <path under /repo>           source of the items that follow
  //@item struct|enum|const|fn NAME   the item, verbatim (derives reduced to Clone, Copy)
  //@fn NAME | TYPE::NAME             a function, verbatim, up to //@end:
     //@ret r                         names the result
     //@spec                          the lines that follow are its contract
     //@loop K [it=NAME] HEADER       the lines that follow are the invariants of its K-th loop, whose
                                      header has to read HEADER (white space aside)
     //@at begin|end|before K|begin K|end K|after K|after TEXT
                                      the lines that follow are ghost code at that place
     //@sub TEXT => TEXT              a mechanical replacement (listed as dropped by the extraction)
     //@closures N                   closures without a contract that the function may have; with more
                                      of them, a failed proof is undecided (Verus knows nothing of their results)
     //@bits                         the proof copes with bit operations; elsewhere a failed proof of a
                                      function that has them is undecided
  //@end
  //@recontract NAME .. //@end       in the lines included before it, another `ensures` for every
                                     function NAME (a weaker contract on the same code)

Everything that is inserted is ghost code: erased, the function is the one in /repo.  Anything that
does not fit (a missing function, another loop header, a construct Verus does not support) makes the
unit undecided, never a violation."""
import concurrent.futures, json, os, re, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")


class Lost(Exception):
    pass


TOKEN = re.compile(r"""
  (?P<comment>//[^\n]*|/\*.*?\*/)
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<op>::|->|=>|\.\.=|\.\.|&&|\|\||<<=|>>=|==|!=|<=|>=|\+=|-=|\*=|/=|%=|&=|\|=|\^=|<<|>>|.)
 |(?P<ws>\s+)
""", re.X | re.S)


def tokens(src):
    """[(text, start, end)] without white space and comments"""
    out = []
    pos = 0
    while pos < len(src):
        m = TOKEN.match(src, pos)
        if not m:
            raise Lost("cannot read the source at %r" % src[pos:pos + 20])
        pos = m.end()
        if m.lastgroup not in ("comment",) and not m.group().isspace():
            out.append((m.group(), m.start(), m.end()))
    return out


def norm(text):
    return " ".join(t[0] for t in tokens(text))


OPEN = {"{": "}", "(": ")", "[": "]"}


def close(toks, i):
    """index of the token that closes the bracket at i"""
    depth = 0
    for k in range(i, len(toks)):
        t = toks[k][0]
        if t in OPEN:
            depth += 1
        elif t in ("}", ")", "]"):
            depth -= 1
            if depth == 0:
                return k
    raise Lost("unbalanced brackets")


def item_range(src, toks, kind, name, within=None):
    """(first token, last token) of an item; within: name of the impl type it is in"""
    lo, hi = 0, len(toks)
    spans = []
    if within:
        for i, t in enumerate(toks):
            if t[0] == "impl" :
                j = i
                while toks[j][0] != "{":
                    j += 1
                head = [x[0] for x in toks[i:j]]
                # impl<..> Trait for Type or impl Type; TYPE or "TRAIT for TYPE"
                want = within.split()
                plain = []
                d = 0
                for x in head[1:]:
                    if x == "<":
                        d += 1
                    elif x == ">":
                        d -= 1
                    elif d == 0:
                        plain.append(x)
                if plain == want:
                    spans.append((j + 1, close(toks, j)))
            elif t[0] == "trait" and within == "trait " + toks[i + 1][0]:
                j = i
                while toks[j][0] != "{":
                    j += 1
                spans.append((j + 1, close(toks, j)))
    else:
        spans.append((0, len(toks)))
    for lo, hi in spans:
        i = lo
        depth = 0
        while i < hi:
            t = toks[i][0]
            if depth == 0 and t == kind and toks[i + 1][0] == name:
                # back over pub, pub(crate), const, attributes are left out
                s = i
                while s > lo and toks[s - 1][0] in ("pub", "const", "unsafe"):
                    s -= 1
                e = i
                while toks[e][0] not in ("{", ";"):
                    if toks[e][0] in ("(", "["):
                        e = close(toks, e)
                    e += 1
                if toks[e][0] == "{":
                    e = close(toks, e)
                return s, e
            if t in OPEN:
                depth += 1
            elif t in ("}", ")", "]"):
                depth -= 1
            i += 1
    raise Lost("no %s %s%s in the source" % (kind, within + "::" if within else "", name))


def derives(src, toks, s):
    """the derives in front of an item, reduced to those Verus accepts"""
    i = s - 1
    found = []
    while i > 0 and toks[i][0] == "]":
        # back to its [
        depth = 0
        k = i
        while True:
            if toks[k][0] == "]":
                depth += 1
            elif toks[k][0] == "[":
                depth -= 1
                if depth == 0:
                    break
            k -= 1
        if toks[k - 1][0] == "#" and toks[k + 1][0] == "derive":
            found += [t[0] for t in toks[k + 2:i]]
        i = k - 2
    keep = [d for d in ("Clone", "Copy") if d in found]
    return "#[derive(%s)]\n" % ", ".join(keep) if "Copy" in keep else ""


LOOPS = ("for", "while", "loop")


def loops(toks, lo, hi):
    """[(keyword, body open, body close)] in source order"""
    out = []
    for i in range(lo, hi):
        if toks[i][0] in LOOPS and not (toks[i][0] == "for" and toks[i + 1][0] == "<"):
            j = i + 1
            while toks[j][0] != "{":
                if toks[j][0] in ("(", "["):
                    j = close(toks, j)
                j += 1
            out.append((i, j, close(toks, j)))
    return out


def closures(text):
    """how many closures without a contract of their own: Verus knows nothing of what they give"""
    t = [x[0] for x in tokens(text)]
    n = 0
    for i in range(1, len(t)):
        if t[i] in ("|", "||") and t[i - 1] in ("(", ",", "=", "{", ";", "move", "return", "=>"):
            j = i if t[i] == "||" else t.index("|", i + 1) if "|" in t[i + 1:] else i
            n += t[j + 1] != "->"
    return n


def bits(text):
    """does it compute with single bits (which Verus does not follow without a hint)?"""
    t = [x[0] for x in tokens(text)] + [""]
    for i in range(1, len(t) - 1):
        if t[i] in ("<<", "^", "|=", "&=", "^=", "<<=", ">>=") or t[i] == ">>" and re.match(r"\d", t[i + 1]):
            return True
        if t[i] == "&" and re.match(r"\d", t[i + 1]) and (re.match(r"\w", t[i - 1]) or t[i - 1] in (")", "]")) and t[i - 1] not in ("return", "in"):
            return True
    return False


class Unit:
    def __init__(self, name):
        self.name = name
        self.dropped = []
        self.functions = []      # (label, first line, last line) in the generated file
        self.hinted = {}         # function -> its template helps with bits
        self.source = {}         # function -> its text in /repo
        self.closures = {}       # function -> closures without a contract that its template allows
        self.opaque = {}         # function -> why its body could not be taken in

    @staticmethod
    def lines(path):
        out = []
        for l in open(path).read().split("\n"):
            if l.strip().startswith("//@include "):
                out += Unit.lines(os.path.join(ROOT, "verus", l.strip()[11:].strip()))
            else:
                out.append(l)
        return Unit.recontract(out)

    @staticmethod
    def recontract(lines):
        """//@recontract NAME .. //@end: the `ensures` of every function NAME before it is replaced"""
        for i in [i for i, l in enumerate(lines) if l.startswith("//@recontract ")]:
            name = lines[i][14:].strip()
            j = next(k for k in range(i, len(lines)) if lines[k].strip() == "//@end")
            new = lines[i + 1:j]
            out, k = [], 0
            while k < i:
                out.append(lines[k])
                if lines[k].strip() == "//@fn " + name:
                    k += 1
                    state = "before"
                    while lines[k].strip() != "//@end":
                        d = lines[k].strip()
                        if state == "spec" and d.startswith("ensures"):
                            out += new
                            state = "dropped"
                        elif d.startswith("//@"):
                            state = "spec" if d == "//@spec" else "after"
                        if state != "dropped":
                            out.append(lines[k])
                        k += 1
                    out.append(lines[k])
                k += 1
            return Unit.recontract(out + lines[j + 1:])
        return lines

    def build(self, probe=False):
        """the Verus source; probe: with a contradiction at the start of every contract function"""
        self.functions = []
        self.dropped = []
        path = os.path.join(ROOT, "verus", self.name + ".vrs")
        lines = self.lines(path)
        out = []
        i = 0
        src = toks = None
        file = None
        while i < len(lines):
            l = lines[i].strip()
            if l.startswith("//@use "):
                file = self.file = l[7:].strip()
                with open(os.path.join(REPO, file)) as f:
                    src = f.read()
                # test modules are not part of the code that runs
                toks = tokens(src)
            elif l.startswith("//@item "):
                decl, _, rest = l.partition(" with ")
                _, kind, name = decl.split()[:3]
                s, e = item_range(src, toks, kind, name)
                text = src[toks[s][1]:toks[e][2]]
                for a, b in [x.split(" => ") for x in rest.split(" and ") if x]:
                    text = self.substitute(text, a.strip(), b.strip(), name)
                if kind == "static":
                    # a constant that nothing writes to
                    text = re.sub(r"\bstatic\b", "const", text, count=1)
                if "public" in decl.split():
                    # visibility does not matter for what the code does
                    text = re.sub(r"(pub\s+)?\b(struct|enum) ", r"pub \2 ", text, count=1)
                    text = re.sub(r"([{,]\s*)(\w+\s*:(?!:))", r"\1pub \2", text)
                if "structural" in decl.split():
                    # the derived equality is the structural one
                    text = "#[derive(PartialEq, Eq, Structural)]\n" + text
                out += (derives(src, toks, s) + text).split("\n")
            elif l.startswith("//@fn "):
                name = l[6:].strip()
                j = i + 1
                block = []
                while lines[j].strip() != "//@end":
                    block.append(lines[j])
                    j += 1
                key = "%s %s" % (file, name)
                self.hinted[key] = any("bit_vector" in b or "low_bit()" in b or b.strip() == "//@bits" for b in block)
                self.closures[key] = sum(int(b.split()[1]) for b in block if b.strip().startswith("//@closures "))
                if key not in self.opaque:
                    try:
                        text = self.function(src, toks, name, block, probe)
                    except Lost as e:
                        self.opaque[key] = "extraction: %s" % e
                if key in self.opaque:
                    text = self.contract_only(src, toks, name, block)
                first = len(out) + 1
                out += text.split("\n")
                self.functions.append(("%s %s" % (file, name), first, len(out)))
                i = j
            else:
                out.append(lines[i])
            i += 1
        return "\n".join(out)

    @staticmethod
    def parameters(text, within):
        """the parameters of a handler of type &Command and &mut Context under the names the contracts use"""
        if within != "CommandHandler for Handler":
            return text
        for ty, to in ((["&", "Command"], "command"), (["&", "mut", "Context"], "context"), (["&", "Context"], "context")):
            t = tokens(text)
            for k in range(len(t) - 4):
                if t[k][0] == "{":
                    break
                if t[k + 1][0] == ":" and [x[0] for x in t[k + 2:k + 2 + len(ty)]] == ty and t[k + 2 + len(ty)][0] in (",", ")"):
                    was = t[k][0]
                    if was != to and re.fullmatch(r"\w+", was) and to not in [x[0] for x in t]:
                        for a, b, c in reversed([(t[i], t[i][1], t[i][2]) for i in range(len(t)) if t[i][0] == was and t[i - 1][0] != "."]):
                            text = text[:b] + to + text[c:]
                    break
        return text

    def function(self, src, toks, name, block, probe):
        within = None
        fn = name
        if "::" in name:
            within, fn = name.rsplit("::", 1)
        s, e = item_range(src, toks, "fn", fn, within)
        # own copy of the text with own tokens
        text = self.parameters(src[toks[s][1]:toks[e][2]], within)
        self.source["%s %s" % (self.file, name)] = text
        subs = []
        parts = []       # (kind, argument, lines)
        ret = None
        for l in block:
            st = l.strip()
            if st.startswith("//@closures ") or st == "//@bits":
                pass
            elif st.startswith("//@ret "):
                ret = st[7:].strip()
            elif st.startswith("//@sub "):
                a, b = st[7:].split(" => ")
                subs.append((a.strip(), b.strip()))
            elif st.startswith("//@spec"):
                parts.append(["spec", "", []])
            elif st.startswith("//@loop "):
                parts.append(["loop", st[8:].strip(), []])
            elif st.startswith("//@at "):
                parts.append(["at", st[6:].strip(), []])
            elif parts:
                parts[-1][2].append(l)
            elif st:
                raise Exception("line outside of a section: " + l)
        for a, b in subs:
            text = self.substitute(text, a, b, name)
        t = tokens(text)
        body = next(k for k in range(len(t)) if t[k][0] == "{" and self.depth0(t, k))
        end = close(t, body)
        ins = []         # (position, order, text)

        def put(pos, txt, order=0):
            ins.append((pos, order, len(ins), "\n" + txt + "\n"))

        if ret:
            arrow = [k for k in range(body) if t[k][0] == "->" and self.depth0(t, k)]
            if not arrow:
                raise Lost("%s has no result" % name)
            a = t[arrow[-1]][2]
            b = t[body - 1][2]
            text_ret = text[a:b]
            ins.append((a, -5, 0, " (%s:%s)" % (ret, text_ret)))
            cut = (a, b)
        else:
            cut = None
        ls = loops(t, body, end)
        want = [p for p in parts if p[0] == "loop"]
        for kind, arg, lines in parts:
            txt = "\n".join(lines)
            if kind == "spec":
                put(t[body][1], txt)
            elif kind == "loop":
                m = re.match(r"(\d+)\s+(?:it=(\w+)\s+)?(.*)$", arg)
                k = int(m.group(1)) - 1
                if k >= len(ls):
                    raise Lost("%s has %d loops" % (name, len(ls)))
                kw, o, c = ls[k]
                head = " ".join(x[0] for x in t[kw:o])
                if head != norm(m.group(3)):
                    raise Lost("loop %d of %s reads '%s' instead of '%s'" % (k + 1, name, head, norm(m.group(3))))
                if m.group(2):
                    p = next(x for x in range(kw, o) if t[x][0] == "in")
                    ins.append((t[p][2], 0, len(ins), " %s:" % m.group(2)))
                put(t[o][1], txt)
            else:
                w = arg.split(None, 1)
                if arg == "begin":
                    put(t[body][2], txt)
                elif arg == "end":
                    put(t[end][1], txt)
                elif w[0] in ("before", "begin", "end", "after") and re.fullmatch(r"\d+", w[1]):
                    k = int(w[1]) - 1
                    if k >= len(ls):
                        raise Lost("%s has %d loops" % (name, len(ls)))
                    kw, o, c = ls[k]
                    put({"before": t[kw][1], "begin": t[o][2], "end": t[c][1], "after": t[c][2]}[w[0]], txt)
                elif w[0] in ("after", "before"):
                    m = re.match(r"(?:#(\d+)\s+)?(.*)$", w[1])
                    n = int(m.group(1) or 1)
                    pat = [x[0] for x in tokens(m.group(2))]
                    hits = [k for k in range(body, end) if [x[0] for x in t[k:k + len(pat)]] == pat]
                    if len(hits) < n:
                        raise Lost("%s: no '%s'" % (name, m.group(2)))
                    k = hits[n - 1]
                    if w[0] == "before":
                        # the start of the statement: after the last ; { or } at this depth
                        put(t[k][1], txt)
                    else:
                        put(t[k + len(pat) - 1][2], txt)
                else:
                    raise Exception("unknown place: " + arg)
        n_spec = len(want)
        if len(ls) != n_spec:
            raise Lost("%s has %d loops instead of %d" % (name, len(ls), n_spec))
        if probe:
            ins.append((t[body][2], 9, len(ins), "\nproof { assert(false); }\n"))
        if cut:
            # the result type moves into the named result
            marker = "\0"
            text = text[:cut[0]] + marker * (cut[1] - cut[0]) + text[cut[1]:]
        res = []
        last = 0
        for pos, order, n, txt in sorted(ins, key=lambda x: (x[0], x[1], x[2])):
            res.append(text[last:pos])
            res.append(txt)
            last = pos
        res.append(text[last:])
        return "".join(res).replace("\0", "")

    def contract_only(self, src, toks, name, block):
        """the signature and the contract, the body left out (the obligation is then undecided)"""
        within, fn = name.rsplit("::", 1) if "::" in name else (None, name)
        s, e = item_range(src, toks, "fn", fn, within)
        text = self.parameters(src[toks[s][1]:toks[e][2]], within)
        spec, ret, on = [], None, False
        for l in block:
            st = l.strip()
            if st.startswith("//@"):
                on = st.startswith("//@spec")
                if st.startswith("//@ret "):
                    ret = st[7:].strip()
            elif on:
                spec.append(l)
        t = tokens(text)
        body = next(k for k in range(len(t)) if t[k][0] == "{" and self.depth0(t, k))
        head = text[:t[body - 1][2]]
        if ret:
            arrow = [k for k in range(body) if t[k][0] == "->" and self.depth0(t, k)]
            if not arrow:
                raise Lost("%s has no result" % name)
            a = t[arrow[-1]][2]
            head = text[:a] + " (%s:%s)" % (ret, text[a:t[body - 1][2]])
        return "#[verifier::external_body]\n" + head + "\n" + "\n".join(spec) + "\n{ unimplemented!() }"

    @staticmethod
    def depth0(t, k):
        d = 0
        for x in t[:k]:
            if x[0] in ("(", "["):
                d += 1
            elif x[0] in (")", "]"):
                d -= 1
        return d == 0

    def substitute(self, text, a, b, name):
        """A token sequence is replaced.  $1 $2 .. stand for balanced token sequences (kept in the
        replacement), ... for one that is dropped, $str for a string."""
        t = tokens(text)
        pat = [x[0] for x in tokens(re.sub(r"\$(\d)", r" __cap\1__ ", a.replace("...", " __cap0__ ").replace("$str", " __str__ ")))]
        out = []
        last = 0
        k = 0
        n = 0
        while k < len(t):
            e, caps = self.match(text, t, k, pat)
            if e is not None:
                out.append(text[last:t[k][1]])
                out.append(re.sub(r"\$(\d)", lambda m: caps[m.group(1)], b))
                last = t[e - 1][2]
                k = e
                n += 1
            else:
                k += 1
        out.append(text[last:])
        if n:
            said = "%s %s: '%s' is read as '%s'" % (self.file, name, a, b)
            if said not in self.dropped:
                self.dropped.append(said)
        return "".join(out)

    @staticmethod
    def match(text, t, k, pat):
        i = k
        p = 0
        caps = {}
        while p < len(pat):
            m = re.fullmatch(r"__cap(\d)__", pat[p])
            if m:
                # up to the next token of the pattern, or the closing bracket that follows
                stop = pat[p + 1] if p + 1 < len(pat) else None
                start = i
                depth = 0
                while True:
                    if i >= len(t):
                        return None, None
                    x = t[i][0]
                    if depth == 0 and (x == stop or x in ("}", ")", "]")):
                        break
                    if x in OPEN:
                        depth += 1
                    elif x in ("}", ")", "]"):
                        depth -= 1
                    i += 1
                caps[m.group(1)] = text[t[start][1]:t[i - 1][2]] if i > start else ""
                p += 1
                continue
            if i >= len(t) or not (t[i][0] == pat[p] or pat[p] == "__str__" and t[i][0].startswith('"')):
                return None, None
            i += 1
            p += 1
        return i, caps


def run_units(units, work, run, left):
    """units: {unit: [functions that matter here] or None for all of them}"""
    if not isinstance(units, dict):
        units = {u: None for u in units}
    return [run_unit(name, of, work, run, left) for name, of in units.items()]


ERR = re.compile(r"^error(?:\[\w+\])?: ([^\n]*)((?:\n(?!error|note|warning|verification)[^\n]*)*)", re.M)
ARROW = re.compile(r"--> [^\n:]*:(\d+):(\d+)")


LIMIT = re.compile(r"rlimit|[Rr]esource limit|timed? ?out")


def module_of(text, line):
    """the flags that select the module this line of the generated source is in"""
    pos = sum(len(x) + 1 for x in text.split("\n")[:line - 1])
    t = tokens(text)
    name = None
    for i, x in enumerate(t):
        if x[1] > pos:
            break
        if x[0] == "mod" and t[i + 2][0] == "{" and t[close(t, i + 2)][1] > pos:
            name = t[i + 1][0]
    return ["--verify-module", name] if name else ["--verify-root"]


def run_unit(name, of, work, run, left):
    t0 = time.time()
    u = Unit(name)
    tpl = "\n".join(Unit.lines(os.path.join(ROOT, "verus", name + ".vrs")))
    meta = {}
    for l in re.findall(r"//@meta (\w+) (.*)", tpl):
        meta.setdefault(l[0], []).append(l[1].strip())
    assumptions = list(meta.get("assume", []))
    out = {"name": "verus:" + name, "cmd": "verus %s.rs, generated by bin/verus_units.py from verus/%s.vrs and /repo" % (name, name),
           "obligations": [], "failed": [], "output": "", "assumptions": assumptions}
    path = os.path.join(work, name + ".rs")

    def mine(label):
        return of is None or label.split()[-1] in of or any(label.endswith("/" + x) for x in of)

    def undecided(why):
        labels = [f[0] for f in u.functions] or re.findall(r"//@fn (.*)", tpl)
        out["obligations"] = [{"id": "verus:%s:%s" % (name, l), "status": "undecided", "n": 1, "seconds": 0.0, "note": why[:300]}
                              for l in labels if mine(l)]
        return out

    def where(line):
        for label, a, b in u.functions:
            if a <= line <= b:
                return label
        return None

    # functions Verus cannot read keep their contract and lose their body, one after the other
    for attempt in range(8):
        try:
            text = u.build()
        except (Lost, OSError, StopIteration, IndexError) as e:
            return undecided("extraction: %s" % e)
        with open(path, "w") as f:
            f.write(text)
        cmd = ["verus", path, "--rlimit", meta.get("rlimit", ["30"])[0], "--num-threads", "4", "--multiple-errors", "2", "--triggers-mode", "silent"]
        rc, o, to = run(cmd, timeout=max(20, left() - 30), cwd=work)
        out["output"] = o
        m = re.search(r"verification results:: (\d+) verified, (\d+) errors", o)
        if to:
            return undecided("timeout")
        if m:
            break
        lost = set()
        for e in ERR.finditer(o):
            for line, col in ARROW.findall(e.group(2))[:1]:
                l = where(int(line))
                if l and l not in u.opaque:
                    lost.add((l, e.group(1)))
        if not lost and "panicked" in o:
            # Verus gives no place: halve the functions until one is left
            cand = [l for l, a, b in u.functions if l not in u.opaque]
            kept = dict(u.opaque)
            why = (re.findall(r"panicked at[^\n]*\n([^\n]*)", o) or ["panic"])[0]

            def accepted(hidden):
                u.opaque = dict(kept, **{l: "" for l in hidden})
                with open(path, "w") as f:
                    f.write(u.build())
                rc, o1, to = run(["verus", path, "--no-verify", "--triggers-mode", "silent"], timeout=60, cwd=work)
                return not to and "panicked" not in o1

            if cand and left() > 100 and accepted(cand):
                while len(cand) > 1:
                    half = cand[:len(cand) // 2]
                    cand = half if accepted(half) else cand[len(cand) // 2:]
                    if left() < 60:
                        break
                lost.add((cand[0], why))
            u.opaque = kept
        if not lost:
            e = ERR.search(o)
            return undecided("Verus does not accept the unit: %s" % (e.group(0) if e else o[-300:]))
        for l, why in lost:
            u.opaque[l] = "Verus cannot read it: " + why[:200]
    else:
        return undecided("Verus does not accept the unit")
    assumptions += ["extraction: " + d for d in u.dropped]
    assumptions += ["contract assumed, its body could not be checked: %s (%s)" % (l, w) for l, w in u.opaque.items()]
    def failures(o):
        bad = {}     # label -> messages
        for e in ERR.finditer(o):
            at = [where(int(line)) for line, col in ARROW.findall(e.group(2))[:1]]
            if at:
                bad.setdefault(at[0] or "lemmas", []).append(e.group(1))
        return bad

    bad = failures(o)
    # only what fails whatever the solver's seed is a refuted obligation
    unsure = {}
    again = [l for l in bad if l != "lemmas" and not all(LIMIT.search(x) for x in bad[l])]
    if again and left() >= 120:
        limit = str(2 * int(meta.get("rlimit", ["30"])[0]))

        # and a loop may lean on what the function knew before it (a value read once, ahead of the loop)
        # or need products of variables multiplied out
        texts = {7: path, 23: path}
        for k, how in ((0, "#[verifier::loop_isolation(false)] "), (1, "#[verifier::loop_isolation(false)] #[verifier::nonlinear] ")):
            lines = text.split("\n")
            for x, a, b in u.functions:
                if x in again:
                    for i in range(a - 1, b):
                        if re.match(r"\s*(pub(\([^)]*\))?\s+)?fn\s", lines[i]):
                            lines[i] = how + lines[i]
                            break
            texts[k] = os.path.join(work, name + "_%d.rs" % k)
            with open(texts[k], "w") as f:
                f.write("\n".join(lines))

        def retry(l, k):
            first = next(a for x, a, b in u.functions if x == l)
            c = ["verus", texts[k], "--rlimit", limit, "--multiple-errors", "1", "--triggers-mode", "silent",
                 "--smt-option", "smt.random_seed=%d" % k, "--smt-option", "sat.random_seed=%d" % k,
                 "--verify-function", "*" + l.split()[-1].split("::")[-1]] + module_of(text, first)
            rc, o1, to = run(c, timeout=min(200, max(20, left() - 30)), cwd=work)
            if to or "verification results::" not in o1:
                return None
            return l in failures(o1)

        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            jobs = [(l, k, pool.submit(retry, l, k)) for l in again for k in (0, 7, 23, 1)]
            for l, k, j in jobs:
                if j.result() is False and l in bad:
                    unsure[l] = bad.pop(l)
    dt = time.time() - t0
    # are the preconditions satisfiable?  the same text with a contradiction to prove at every start
    probed = None
    if not bad:
        try:
            ppath = os.path.join(work, name + "_probe.rs")
            with open(ppath, "w") as f:
                f.write(u.build(probe=True))
            rc2, o2, to2 = run(["verus", ppath, "--rlimit", "1", "--num-threads", "4", "--triggers-mode", "silent"], timeout=max(20, left() - 30), cwd=work)
            if not to2 and "verification results::" in o2:
                probed = {where(int(l)) for e in ERR.finditer(o2) for l, c in ARROW.findall(e.group(2))[:1]}
        except Lost:
            pass
    nver = int(m.group(1))
    labels = [f[0] for f in u.functions]
    seconds = round(dt / max(1, len(labels)), 2)
    for l in labels:
        if not mine(l):
            continue
        ob = {"id": "verus:%s:%s" % (name, l), "n": 1, "seconds": seconds, "note": "", "status": "discharged"}
        if l in u.opaque:
            ob["status"], ob["note"] = "undecided", u.opaque[l][:300]
        elif l in bad:
            body = next("\n".join(text.split("\n")[a - 1:b]) for x, a, b in u.functions if x == l)
            if all(LIMIT.search(x) for x in bad[l]):
                ob["status"], ob["note"] = "undecided", "resource limit"
            elif closures(body) > u.closures[l]:
                ob["status"], ob["note"] = "undecided", "not proved: what its closures give is unknown to Verus"
            elif bits(u.source[l]) and not u.hinted.get(l):
                ob["status"], ob["note"] = "undecided", "not proved: it computes with bits, and the unit has no hint for them"
            else:
                ob["status"], ob["note"] = "failed", "; ".join(bad[l])[:300]
                out["failed"].append("%s: %s" % (l, "; ".join(bad[l])))
        elif probed is not None and l not in probed:
            ob["status"], ob["note"] = "undecided", "vacuous: its precondition is contradictory"
        out["obligations"].append(ob)
    if "lemmas" in bad:
        out["obligations"].append({"id": "verus:%s:lemma" % name, "n": 1, "status": "undecided", "seconds": 0.0, "note": "; ".join(bad["lemmas"])[:300]})
    else:
        extra = nver - len([l for l in labels if l not in bad])
        if extra > 0:
            out["obligations"].append({"id": "verus:%s:lemmas, loops and data types" % name, "n": extra, "status": "discharged", "seconds": 0.0, "note": ""})
    return out


if __name__ == "__main__":
    import subprocess, sys

    def run(cmd, timeout=None, cwd=None):
        try:
            p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return p.returncode, p.stdout.decode(), False
        except subprocess.TimeoutExpired as e:
            return -9, (e.stdout or b"").decode(), True
    os.makedirs("/tmp/vu", exist_ok=True)
    for r in run_units(sys.argv[1:], "/tmp/vu", run, lambda: 600.0):
        print(r["output"][-6000:])
        for o in r["obligations"]:
            print(o)
        print(r["failed"], r["assumptions"])
