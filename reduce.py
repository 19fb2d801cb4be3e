"""Fallback for trees on which part of a harness does not compile.

The harness uses more of the library's interface than the repository's own tests.  When a unit
does not build, the statements of the harness that (directly or through templates) lead to the
compiler's errors are blanked out, innermost first, until the rest builds.  What remains still
observes the real code.  run.py reports the unit as reduced and accepts a violation seen by a
reduced unit only if the same reduced harness is quiet on the reference copy of the library, so
that a blanked statement can never turn into a false alarm.
"""
import os, re, shutil, subprocess


def neutral(src):
    """Comments, strings, character constants and preprocessor lines replaced by blanks of equal length."""
    out, i, n = list(src), 0, len(src)
    bol = True
    while i < n:
        c = src[i]
        if bol and re.match(r"[ \t]*#", src[i:i + 200]):
            while i < n:
                j = src.find("\n", i)
                j = n if j < 0 else j
                cont = j > 0 and src[j - 1] == "\\"
                for k in range(i, j):
                    out[k] = " "
                i = j + 1
                if not cont:
                    break
            bol = True
            continue
        bol = c == "\n"
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
        elif src.startswith("/*", i):
            j = src.find("*/", i) + 2
        elif c == '"' or (c == "'" and not (i and src[i - 1].isalnum())):
            j = i + 1
            while j < n and src[j] != c:
                j += 2 if src[j] == "\\" else 1
            j += 1
            for k in range(i, min(j, n)):
                out[k] = "0"
            i = j
            continue
        else:
            i += 1
            continue
        for k in range(i, min(j, n)):
            if out[k] != "\n":
                out[k] = " "
        i = j
    return "".join(out)


LAMBDA = re.compile(r"\[[^\[\]]*\]\s*(\((?:[^()]|\([^()]*\))*\))?\s*(mutable)?\s*(->[^{;]*)?$")
SCOPE = re.compile(r"\s*(template\s*<.*>\s*)?(struct|class|namespace|enum|union|extern)\b", re.S)


def statements(t):
    """[(start, end, removable)] of all statements, nested."""
    res, n = [], len(t)

    def skip(i):
        while i < n and t[i].isspace():
            i += 1
        return i

    def block(i, inside):  # i behind '{'; returns the position of the matching '}'
        i = skip(i)
        while i < n and t[i] != "}":
            j = statement(i, inside)
            res.append((i, j, inside))
            i = skip(j)
        return i

    def expr_brace(i):  # i at '{' of an initializer
        d = 0
        while i < n:
            if t[i] == "{":
                d += 1
            elif t[i] == "}":
                d -= 1
                if d == 0:
                    return i
            i += 1
        return n

    def statement(s, inside):
        i, par = s, 0
        while i < n:
            c = t[i]
            if c in "([":
                par += 1
            elif c in ")]":
                par -= 1
            elif c == ";" and par == 0:
                k = skip(i + 1)
                if inside and re.match(r"else\b", t[k:k + 6]) and re.match(r"(else\s+)?if\b", t[s:s + 12]):
                    i = k + 4
                    continue
                return i + 1
            elif c == "{":
                head = t[s:i]
                lam = LAMBDA.search(head)
                if lam and (inside or par):
                    i = block(i + 1, True)
                elif par == 0 and SCOPE.match(head) and "(" not in re.sub(r"<.*?>", "", head):
                    i = block(i + 1, False)
                elif par == 0 and re.search(r"(\)|\belse|\bdo|\btry|\bconst|\bnoexcept|\bthrow\(\))\s*$", head) or head.strip() == "" or (par == 0 and re.search(r"\)\s*:[^?;]*[)}]\s*$", head)):
                    i = block(i + 1, True)
                    k = skip(i + 1)
                    if re.match(r"(else|catch)\b", t[k:k + 6]) or (re.match(r"do\b", head) and t.startswith("while", k)):
                        i = k + 4
                        continue
                    return i + 1
                else:
                    i = expr_brace(i)
            elif c == "}":
                return i
            i += 1
        return n

    i = skip(0)
    while i < n:
        j = statement(i, False)
        res.append((i, j, False))
        i = skip(max(j, i + 1))
    return res


def offset(src, line, col):
    p = 0
    for _ in range(line - 1):
        p = src.find("\n", p) + 1
        if p == 0:
            return len(src)
    return p + col - 1


KEEP = re.compile(r"\s*(return|break|continue|case|default|goto|public|private)\b")


def pick(src, line, col, levels=0):
    p = offset(src, line, col)
    t = neutral(src)
    c = sorted((s for s in statements(t) if s[2] and s[0] <= p < s[1]), key=lambda s: s[1] - s[0])
    c = [s for s in c if not KEEP.match(t[s[0]:s[1]]) and t[s[0]:s[1]].strip() not in ("", ";")]
    return c[0] if c else None


def blank(src, s):
    body = "".join("\n" if ch == "\n" else " " for ch in src[s[0]:s[1]])
    return src[:s[0]] + ";" + body[1:] + src[s[1]:] if body[0] != "\n" else src[:s[0]] + body[:-1] + ";" + src[s[1]:]


def chains(out, root):
    """Per error the locations in the harness, innermost first."""
    res, cur = [], None
    for l in out.splitlines():
        m = re.match(r"(/[^:]+):(\d+):(\d+): (error|fatal error|note): (.*)", l)
        if not m:
            continue
        f, ln, col, kind, msg = m.group(1), int(m.group(2)), int(m.group(3)), m.group(4), m.group(5)
        if kind != "note":
            cur = dict(msg=msg, at=[])
            res.append(cur)
        elif cur is None or not re.search(r"requested here|while substituting|in evaluation of|required here", msg):
            continue
        f = os.path.realpath(f)
        if f.startswith(os.path.realpath(root) + os.sep):
            cur["at"].append((f, ln, col))
    return res


def reduced_copy(hdir, dst, compile_cmd, src, deadline, rounds=14):
    """Blanks statements of a copy of the harness until compile_cmd(copy) succeeds; returns the list of removed statements or None."""
    import time
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(hdir, dst)
    removed = []
    for _ in range(rounds):
        if time.time() > deadline:
            return None
        p = subprocess.run(compile_cmd(dst, os.path.join(dst, src)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if p.returncode == 0:
            return removed
        todo = {}
        for c in chains(p.stdout.decode(errors="replace"), dst):
            for f, ln, col in c["at"]:
                s = pick(open(f).read(), ln, col)
                if s:
                    todo.setdefault(f, set()).add(s)
                    break
        if not todo:
            return None
        for f, ss in todo.items():
            text = open(f).read()
            for s in ss:
                removed.append("%s:%d %s" % (os.path.basename(f), text.count("\n", 0, s[0]) + 1, " ".join(text[s[0]:s[1]].split())[:120]))
                text = blank(text, s)
            open(f, "w").write(text)
    return None
