"""Mechanical extraction of /repo's sources into C text goto-cc accepts.

What it changes (and nothing else):
  * carriage returns are dropped;
  * default arguments on prototypes/definitions are removed and re-supplied at every call by a variadic macro
    (the value is read from the source text);
  * hash.h's C++ class (a std::map) becomes an opaque struct type; hash.cpp itself is not extracted;
  * `struct|enum|union NAME {` also gets `typedef struct|enum|union NAME NAME;` (C++ does that implicitly);
  * nullptr, constexpr, static_cast<T>(x)/reinterpret_cast/const_cast become their C spellings; `inline` functions become static;
  * the bound of the self-referential tables `opcode X[] = {..}` is made explicit;
  * the bodies of the printf-like diagnostics functions (VARIADIC below) are dropped unless the unit asks for them;
  * where a unit asks for it, a function's calls to itself are renamed to vc_rec_NAME (the recursive call by contract);
  * loop contracts (text kept in the unit's definition) are inserted between a loop head and its body.
No statement or expression of a function body is otherwise edited.
"""
import os, re, glob, json

REPO = os.environ.get("VC_REPO", "/repo")
SRC = ("main opcodes pass_one pass_two utils export preop directive console expand_buf list parser storage "
       "errors bitmap modp_ascii opcodes_ez80").split()


class AttachError(Exception):
    pass


def strip_map(text):
    """Same-length text with comments, strings and character literals blanked."""
    out = list(text)
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if text.startswith("//", i):
            while i < n and text[i] != "\n":
                if text[i] == "\\" and i + 1 < n and text[i + 1] == "\n":
                    out[i] = " "
                    i += 2
                    continue
                out[i] = " "
                i += 1
        elif text.startswith("/*", i):
            j = text.find("*/", i + 2)
            j = n if j < 0 else j + 2
            for k in range(i, j):
                if text[k] != "\n":
                    out[k] = " "
            i = j
        elif c in "\"'":
            j = i + 1
            while j < n and text[j] != c and text[j] != "\n":
                j += 2 if text[j] == "\\" else 1
            j = min(j + 1, n)
            for k in range(i + 1, j - 1):
                if text[k] != "\n":
                    out[k] = " "
            i = j
        else:
            i += 1
    return "".join(out)


DEFINED = {"USE_REUSABLES", "UNIXVER", "USE_BUILTIN_FCREATE", "__GNUC__", "__linux__"}


def pp_blank(text, m):
    """Blanks preprocessor lines and the code of inactive conditionals in the mask m."""
    tl, ml = text.split("\n"), m.split("\n")
    stack = []  # [active_here, any_taken]
    k = 0
    while k < len(ml):
        d = re.match(r"\s*#\s*(\w*)(.*)", ml[k])
        live = all(a for a, _ in stack)
        if d:
            kw, rest = d.group(1), d.group(2)

            def ev(e):
                e = re.sub(r"defined\s*\(?\s*(\w+)\s*\)?", lambda x: " 1 " if x.group(1) in DEFINED else " 0 ", e)
                e = re.sub(r"\b[A-Za-z_]\w*\b", "0", e)
                e = e.replace("&&", " and ").replace("||", " or ")
                e = re.sub(r"!(?!=)", " not ", e)
                try:
                    return bool(eval(e, {"__builtins__": {}}))
                except Exception:
                    return False
            if kw == "ifdef":
                v = rest.split()[0] in DEFINED
                stack.append([v, v])
            elif kw == "ifndef":
                v = rest.split()[0] not in DEFINED
                stack.append([v, v])
            elif kw == "if":
                v = ev(rest)
                stack.append([v, v])
            elif kw == "elif" and stack:
                v = (not stack[-1][1]) and ev(rest)
                stack[-1] = [v, stack[-1][1] or v]
            elif kw == "else" and stack:
                stack[-1] = [not stack[-1][1], True]
            elif kw == "endif" and stack:
                stack.pop()
            while True:
                ml[k] = " " * len(ml[k])
                if tl[k].endswith("\\") and k + 1 < len(ml):
                    k += 1
                else:
                    break
        elif not live:
            ml[k] = " " * len(ml[k])
        k += 1
    return "\n".join(ml)


def match(text, i, a, b):
    d = 0
    for k in range(i, len(text)):
        if text[k] == a:
            d += 1
        elif text[k] == b:
            d -= 1
            if d == 0:
                return k
    return -1


KEY = {"if", "while", "for", "switch", "return", "sizeof", "else", "do", "case", "defined"}


def functions(text, m=None):
    """name -> (start of body '{', end '}') for function definitions at file scope."""
    m = m or strip_map(text)
    m2 = pp_blank(text, m)
    res = {}
    i, n, depth = 0, len(m2), 0
    while i < n:
        c = m2[i]
        if c == "{":
            pre = m2[:i].rstrip()
            if depth == 0 and pre.endswith(")"):
                # find matching '('
                d, k = 0, len(pre) - 1
                while k >= 0:
                    if pre[k] == ")":
                        d += 1
                    elif pre[k] == "(":
                        d -= 1
                        if d == 0:
                            break
                    k -= 1
                mm = re.search(r"([A-Za-z_]\w*)\s*$", pre[:k])
                j = match(m2, i, "{", "}")
                if mm and mm.group(1) not in KEY and j > 0:
                    res[mm.group(1)] = (i, j)
                    i = j + 1
                    continue
                # "#if 0 ... " style unbalanced function bodies: fall through
            depth += 1
        elif c == "}":
            depth = max(0, depth - 1)
        i += 1
    return res


def loops_in(text, name):
    """Positions where a loop contract goes, for each loop of the function, in textual order."""
    m = strip_map(text)
    f = functions(text, m)
    m = pp_blank(text, m)
    if name not in f:
        raise AttachError("function %s not found" % name)
    a, b = f[name]
    pos = []
    stack_do = []
    for mm in re.finditer(r"\b(for|while|do)\b", m[a:b]):
        at = a + mm.start()
        kw = mm.group(1)
        if kw == "do":
            if re.match(r"do\s*(\{\s*\}|;)\s*while", m[at:b]):
                continue  # an empty do-while is a statement that does nothing
            pos.append(("do", at, None))
            continue
        p = m.find("(", at)
        e = match(m, p, "(", ")")
        if kw == "while":
            # `} while (...);` of a do loop?
            prev = m[:at].rstrip()
            nxt = m[e + 1:].lstrip()
            if re.search(r"\bdo\s*(\{\s*\}|;)$", prev) and nxt.startswith(";"):
                continue
            if prev.endswith("}") and nxt.startswith(";"):
                # candidate: belongs to the most recent unclosed do
                for q in range(len(pos) - 1, -1, -1):
                    if pos[q][0] == "do" and pos[q][2] is None:
                        blk = m.find("{", pos[q][1])
                        if match(m, blk, "{", "}") == len(prev) - 1:
                            pos[q] = ("do", pos[q][1], e + 1)
                            break
                else:
                    pos.append(("while", at, e + 1))
                continue
        pos.append((kw, at, e + 1))
    return pos


HEADS_FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "loopheads.json")
_heads = None


def head_text(text, p):
    """Whitespace-normalised text of a loop head (do loops: the trailing condition)."""
    kw, at, e = p
    m = strip_map(text)
    if kw == "do":
        a = m.rfind("while", at, e) if e else at
        return "do " + " ".join(text[a:e].split())
    return " ".join(text[at:e].split())


def locate(text, file, fn, k):
    """The loop the contract (file, fn, k) belongs to: by its recorded head, else by its position."""
    global _heads
    if _heads is None:
        _heads = json.load(open(HEADS_FILE)) if os.path.exists(HEADS_FILE) else {}
    ps = loops_in(text, fn)
    rec = _heads.get(file + ":" + fn)
    now = [head_text(text, p) for p in ps]
    if rec and rec != now and k < len(rec):
        # the k-th loop is the n-th one with this head
        n = rec[:k].count(rec[k])
        cand = [i for i, h in enumerate(now) if h == rec[k]]
        if rec.count(rec[k]) == len(cand):
            return ps[cand[n]]
        if len(now) != len(rec):
            raise AttachError("loop #%d of %s (%s) cannot be identified" % (k, fn, rec[k]))
    if k >= len(ps):
        raise AttachError("function %s has no loop #%d" % (fn, k))
    return ps[k]


def insert_loops(text, specs, file=""):
    """specs: {(function, ordinal): contract text}"""
    ins, reps = [], []
    for (fn, k), body in specs.items():
        loc = locate(text, file, fn, k)
        ps = {k: loc}
        if ps[k][2] is None:
            raise AttachError("loop #%d of %s has no recognisable head" % (k, fn))
        ghost = None
        if isinstance(body, tuple):
            body, ghost = body
        if ps[k][0] == "do":
            # the verifier has no contracts on do loops: do { B } while (c); is read as while (1) { B if (!(c)) break; }
            m = strip_map(text)
            at, e = ps[k][1], ps[k][2]
            ob = at + 2
            while m[ob].isspace():
                ob += 1
            w = m.rfind("while", at, e)
            cb = w - 1
            while m[cb].isspace():
                cb -= 1
            semi = m.find(";", e)
            plain = m[ob] != "{" and re.match(r"if\b", m[ob:])  # do if (x) { .. } while (c);
            if not (m[ob] == "{" or plain) or m[cb] != "}" or m[e:semi].strip() or re.search(r"\bcontinue\b", m[ob:cb]):
                raise AttachError("do loop #%d of %s cannot be rewritten" % (k, fn))
            cond = " ".join(text[w + 5:e].split())
            reps.append((at, at + 2, "while (1) " + " ".join(body.split()) + (" { " + (ghost or "") + " " if plain else "")))
            reps.append((cb, semi + 1, ("} " if plain else "") + "if (!%s) break; }" % cond + "\n" * text[cb:semi + 1].count("\n")))
            if ghost and not plain:
                ins.append((ob + 1, " " + ghost + " "))
            continue
        ins.append((ps[k][2], "\n" + body.strip() + "\n"))
        if ghost:
            # ghost statement at the start of the loop body
            m = strip_map(text)
            q = ps[k][2] if ps[k][0] != "do" else ps[k][1] + 2
            while m[q].isspace():
                q += 1
            if m[q] == "{":
                ins.append((q + 1, " " + ghost + " "))
            else:
                if re.match(r"(if|for|while|do|switch|return)\b", m[q:]):
                    raise AttachError("ghost statement cannot be placed in loop #%d of %s" % (k, fn))
                e = m.find(";", q)
                ins.append((e + 1, " }"))
                ins.append((q, "{ " + ghost + " "))
    for p, e, b in sorted([(p, p, " " + " ".join(b.split("\n"))) for p, b in ins] + reps, reverse=True):
        # keep the line numbers of the source: contracts go on one line
        text = text[:p] + b + text[e:]
    return text


def read(path):
    with open(path, encoding="latin-1", newline="") as f:
        return f.read().replace("\r\n", "\n").replace("\r", "\n")


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def default_args(texts):
    """Removes default arguments; returns {function: (params, [defaults])} and the edited texts."""
    found = {}
    rx = re.compile(r"\b([A-Za-z_]\w*)\s*\(([^(){};]*=[^(){};]*)\)\s*([;{])")
    new = {}
    for f, t in texts.items():
        m = strip_map(t)
        edits = []
        for mm in rx.finditer(m):
            name = mm.group(1)
            if name in KEY:
                continue
            line = m[m.rfind("\n", 0, mm.start()) + 1:mm.start()]
            if not re.match(r"^[A-Za-z_][\w\s\*]*$", line):
                continue
            ps = split_args(t[mm.start(2):mm.end(2)])
            if not all(re.match(r"^\s*[A-Za-z_][\w\s\*\[\]]*(=.*)?$", p, re.S) for p in ps):
                continue
            defs = [p.split("=", 1)[1].strip() for p in ps if "=" in p]
            found[name] = (len(ps), defs)
            edits.append((mm.start(2), mm.end(2), ", ".join(p.split("=", 1)[0].strip() for p in ps)))
        for a, b, r in reversed(edits):
            t = t[:a] + r + t[b:]
        new[f] = t
    return found, new


def typedefs(t):
    m = strip_map(t)
    out, last = [], 0
    for mm in re.finditer(r"(?m)^(struct|enum|union)\s+([A-Za-z_]\w*)\s*(\{|$)", m):
        nm = mm.group(2)
        if re.search(r"\btypedef\b[^;]*\b%s\s*;" % nm, m):
            continue
        out.append((mm.start(), "typedef %s %s %s; " % (mm.group(1), nm, nm)))
    for p, s in reversed(out):
        t = t[:p] + s + t[p:]
    return t


def cxx_spellings(t):
    t = re.sub(r"\bnullptr\b", "((void *)0)", t)
    t = re.sub(r"\bconstexpr\b", "const", t)
    t = re.sub(r"\b(static|reinterpret|const)_cast\s*<([^<>]+)>\s*\(", r"(\2)(", t)
    t = re.sub(r"(?m)^(static\s+)?inline\b", "static", t)
    # a table of names nobody writes to (goto-cc rejects a write): otherwise loop contracts start from arbitrary statics
    t = re.sub(r"\bstatic const char \*\s*(\w+)\[\]", r"static const char *const \1[]", t)
    return t


VARIADIC = ("show_error", "show_fatal_error", "show_warning", "SetLastSPASMError", "SetLastSPASMWarning")


def guard_variadic(t, drop=()):
    """The printf-like diagnostics are only compiled when a harness asks for their real bodies; so are callees a unit
    represents by an executable contract of its own (drop)."""
    for fn in drop:  # "!fn": without its prototype too (the harness supplies a macro)
        if fn.startswith("!"):
            t = re.sub(r"(?m)^static [^;{}]*\b%s\s*\([^;{}]*\)\s*;" % fn[1:], "", t)
    fs = functions(t)
    ed = []
    for fn in VARIADIC + tuple(d.lstrip("!") for d in drop):
        if fn in fs:
            a, b = fs[fn]
            a = t.rfind("\n", 0, t.rfind(fn, 0, a)) + 1
            ed.append((b + 1, "\n#endif\n"))
            ed.append((a, "#ifdef VC_BODY_%s\n" % fn))
    for p, s in sorted(ed, reverse=True):
        t = t[:p] + s + t[p:]
    return t


def explicit_bounds(t):
    """`opcode X[] = {...}` refers to its own elements; goto-cc needs the bound spelled out for that."""
    m = strip_map(t)
    for mm in reversed(list(re.finditer(r"(?m)^opcode\s+(\w+)\s*\[\s*\]\s*=\s*\{", m))):
        e = match(m, mm.end() - 1, "{", "}")
        n = d = 0
        for c in m[mm.end():e]:
            n += c == "{" and d == 0
            d += (c == "{") - (c == "}")
        k = m.index("[", mm.start())
        t = t[:k] + "[%d]" % n + t[m.index("]", k) + 1:]
    return t


def fix_hash_h(t):
    a = t.find("struct comparator")
    b = t.find("typedef void (*HASH_ENUM")
    if a >= 0 and b > a:
        t = t[:a] + "typedef struct hash_s hash_t;\n" + "\n" * t[a:b].count("\n") + t[b:]
    return t.replace("#include <map>", "")


def rec_stub(t, names):
    """Calls of a recursive function to itself go to vc_rec_<name>, an executable contract the harness supplies
    (a caller is checked against the callee's contract, also when the callee is the caller)."""
    for fn in names:
        fs = functions(t)
        if fn in fs:
            a, b = fs[fn]
            m = strip_map(t)
            for mm in reversed(list(re.finditer(r"\b%s\s*\(" % fn, m[a:b]))):
                t = t[:a + mm.start()] + "vc_rec_" + t[a + mm.start():]
    return t


def hoist_statics(t, names):
    """Initialised scalar statics of a function become file-scope statics named <function>__<name>, so that a harness can
    state their value on entry and exit (loop contracts start from arbitrary statics); initialised text statics become const."""
    for fn in names:
        if fn[0] == "=":
            # "=X": the initialiser of the file-scope array X is repeated as the constant X__init (loop contracts start from
            # arbitrary variables; the harness restores X from it)
            mm = re.search(r"^((?:static\s+)?unsigned char)\s+%s\s*\[\s*\]\s*=\s*(\{[^}]*\})\s*;" % fn[1:], t, re.M)
            if mm:
                t = t[:mm.end()] + " const %s %s__init[] = %s;" % (mm.group(1), fn[1:], re.sub(r"\r?\n", " ", re.sub(r"/\*.*?\*/|//[^\n]*", " ", mm.group(2), flags=re.S))) + t[mm.end():]
            continue
        fs = functions(t)
        if fn in fs:
            a, b = fs[fn]
            m = strip_map(t)
            at = t.rfind("\n", 0, t.rfind(fn, 0, a)) + 1
            body, top = t[a:b], ""
            for mm in reversed(list(re.finditer(r"\bstatic\s+((?:unsigned |signed )?\w+)\s+(\w+)\s*=\s*([\w+-]+)\s*;", m[a:b]))):
                body = body[:mm.start()] + re.sub(r"[^\n]", " ", mm.group(0)) + body[mm.end():]
                top += "static %s %s__%s = %s; " % (mm.group(1), fn, mm.group(2), mm.group(3))
                mb = strip_map(body)
                for u in reversed(list(re.finditer(r"\b%s\b" % mm.group(2), mb))):
                    body = body[:u.start()] + fn + "__" + body[u.start():]
            # (a text constant: read only, so const keeps its meaning)
            body = re.sub(r"\bstatic\s+char\s+(\w+)\s*\[\s*\]\s*=\s*(?=\")", r"static const char \1[] = ", body)
            t = t[:at] + top + t[at:a] + body + t[b:]
    return t


def extract(dst, loops=None, drop=(), rec=(), hoist=()):
    """Writes the extracted tree to dst. loops: {file: {(function, ordinal): text}}."""
    os.makedirs(dst, exist_ok=True)
    texts = {}
    for p in sorted(glob.glob(REPO + "/*.h")) + [REPO + "/%s.cpp" % s for s in SRC]:
        b = os.path.basename(p)
        if b == "gmp.h":
            continue
        if os.path.exists(p):
            texts[b] = read(p)
    for p in glob.glob(REPO + "/*.cpp"):
        b = os.path.basename(p)
        if b not in texts and b not in ("hash.cpp", "stdafx.cpp", "dll.cpp", "CTextStream.cpp", "CZ80AssemblerTest.cpp",
                                        "Z80Assembler.cpp", "Z80Label.cpp"):
            texts[b] = read(p)
    if "hash.h" in texts:
        texts["hash.h"] = fix_hash_h(texts["hash.h"])
    found, texts = default_args(texts)
    for f in texts:
        texts[f] = explicit_bounds(cxx_spellings(typedefs(texts[f])))
    for f, specs in (loops or {}).items():
        texts[f] = insert_loops(texts[f], specs, f)
    for f in texts:
        if f.endswith(".cpp"):
            texts[f] = hoist_statics(rec_stub(guard_variadic(texts[f], drop), rec), hoist)
    for f, t in texts.items():
        with open(os.path.join(dst, f), "w", encoding="latin-1") as o:
            o.write(t)
    lines = ["#define VCSEL_%d(f,%s,...) f(%s)" % (n, ",".join("a%d" % i for i in range(n)), ",".join("a%d" % i for i in range(n)))
             for n in range(1, 9)]
    for name, (n, defs) in sorted(found.items()):
        # a call with n-len(defs)+j arguments picks up defs[j:]; the selector drops the surplus
        k = len(defs)
        if k == 1:
            lines.append("#define %s(...) VCSEL_%d(%s,__VA_ARGS__,%s)" % (name, n, name, defs[0]))
        else:
            raise AttachError("function %s has %d default arguments" % (name, k))
    with open(os.path.join(dst, "vc_defaults.h"), "w") as o:
        o.write("\n".join(lines) + "\n")
    return texts


if __name__ == "__main__":
    import sys
    if sys.argv[1] == "--record-heads":
        import tempfile
        with tempfile.TemporaryDirectory() as d:
            t = extract(d)
            h = {"%s:%s" % (f, fn): [head_text(t[f], p) for p in loops_in(t[f], fn)] for f in sorted(t) if f.endswith(".cpp") for fn in functions(t[f])}
        json.dump({k: v for k, v in sorted(h.items()) if v}, open(HEADS_FILE, "w"), indent=0)
        sys.exit()
    t = extract(sys.argv[1])
    for f in sorted(t):
        if f.endswith(".cpp"):
            fs = functions(t[f])
            print(f, len(fs), " ".join("%s:%d" % (k, len(loops_in(t[f], k))) for k in fs))
