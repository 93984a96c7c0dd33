"""Cuts functions out of /repo for Verus.

A template (contracts/*.rs) is Verus source with these lines in it:

    //@struct FILE | NAME            the struct definition, as it is
    //@const FILE | NAME             the constant, as it is
    //@fn FILE | IMPL | NAME         the function of that impl block, followed by
        requires/ensures ...         its contract ($1.. are the names of its parameters, r is the result)
    //@use a, b                      lemmas for its proof
    //@enum FILE | NAME              the enum definition, as it is
    //@only FILE | IMPL | NAMES      the impl block has no other functions
    //@name a b = REGEX              $a and $b are the names it finds in the body
    //@ret A => B                    in its result type
    //@self A => B                   its receiver
    //@forever                       it need not end
    //@loop                          followed by the invariant of its (first, second...) loop; $0 is a
                                     copy of the first parameter as it was on entry, $r the variable returned
    //@end

Of the function everything is kept except: attributes and visibility; comments; and the rewrites
in REWRITES, each of which names an expression that Verus has no syntax or contract for by a
function with a contract. Whatever cannot be found or does not have the expected shape raises
Lost: the obligations are then undecided.
"""
import os, re


class Lost(Exception):
    pass


def strip(src):
    """Without comments; strings are kept."""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            while i < n and src[i] != "\n":
                i += 1
        elif src.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if src.startswith("/*", i):
                    d, i = d + 1, i + 2
                elif src.startswith("*/", i):
                    d, i = d - 1, i + 2
                else:
                    i += 1
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            out.append(src[i:j + 1])
            i = j + 1
        elif c == "'" and re.match(r"'(\\.[^']*|[^'\\])'", src[i:i + 12]):
            m = re.match(r"'(\\.[^']*|[^'\\])'", src[i:i + 12])
            out.append(m.group(0))
            i += m.end()
        else:
            out.append(c)
            i += 1
    return "".join(out)


PAIRS = {"(": ")", "[": "]", "{": "}"}


def close(s, i):
    """s[i] opens a bracket: the index after the one that closes it."""
    stack = []
    while i < len(s):
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c in PAIRS:
            stack.append(PAIRS[c])
        elif c in ")]}":
            if not stack or stack.pop() != c:
                raise Lost("brackets")
            if not stack:
                return i + 1
        i += 1
    raise Lost("brackets")


def norm(s):
    return re.sub(r"\s+", " ", s).strip()


def blocks(src):
    """The top-level impl blocks: (header, body)."""
    i, depth = 0, 0
    for m in re.finditer(r"^(?:unsafe )?impl\b", src, re.M):
        j = src.index("{", m.start())
        yield norm(src[m.start():j]), src[j + 1:close(src, j) - 1]


def function(path, impl, name):
    src = strip(open(path).read())
    found = []
    for head, body in blocks(src):
        if head != norm(impl):
            continue
        for m in re.finditer(r"(?:pub(?:\([a-z: ]*\))? )?((?:const )?fn %s\b)" % re.escape(name), body):
            j = m.start(1)
            k = body.index("(", j)
            end = close(body, k)
            b = body.index("{", end)
            found.append((norm(body[j:k]), body[k:end], norm(body[end:b]), body[b + 1:close(body, b) - 1]))
    if len(found) != 1:
        raise Lost("%s: %d functions %s in `%s`" % (os.path.basename(path), len(found), name, impl))
    return found[0]


def split_args(s, types=False):
    out, d, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            cur += s[i:j + 1]
            i = j + 1
            continue
        if c in "([{" or types and c == "<":
            d += 1
        if c in ")]}" or types and c == ">" and s[i - 1] not in "-=":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur)
    return [a.strip() for a in out]


def asserts(body):
    """assert!(c, ...): demand(c); debug_assert!(c, ...): demand_debug(c)"""
    while True:
        m = re.search(r"\b(debug_)?assert!\s*\(", body)
        if not m:
            return body
        name = "demand_debug(" if m.group(1) else "demand("
        k = m.end() - 1
        e = close(body, k)
        body = body[:m.start()] + name + split_args(body[k + 1:e - 1])[0] + ")" + body[e:]


def owned(body):
    """`xs.into_iter().try_for_each(|mut v| { BODY Ok(()) })?;`: a loop that takes the items out one by
    one. (`?` in the closure ends both the closure and, with the same error, the function.)"""
    m = re.search(r"self\.bufs\s*\.into_iter\(\)\s*\.try_for_each\(", body)
    if m:
        e = close(body, m.end() - 1)
        f = re.match(r"\s*\|((?:mut )?\w+)\|\s*\{(.*)Ok\(\(\)\)\s*\}\s*$", body[m.end():e - 1], re.S)
        if not f or not re.match(r"\s*\?\s*;", body[e:]) or re.search(r"\breturn\b", f.group(2)):
            raise Lost("try_for_each")
        rest = body[e:].split(";", 1)[1]
        inner = questions(f.group(2))
        return body[:m.start()] + "let mut list = self.bufs; while let Some(%s) = list.pop_front() { %s }" % (
            f.group(1), inner) + rest
    m = re.search(r"\bfor ((?:mut )?\w+) in self\.bufs(?:\.into_iter\(\))? \{", body)
    if m:
        body = body[:m.start()] + "let mut list = self.bufs; while let Some(%s) = list.pop_front() {" % m.group(1) \
            + questions(body[m.end():])
    return body


def questions(body):
    """Frame::decode(..)?, the error type of which is that of the function"""
    return re.sub(r"\b(Frame::decode\([^()]*\))\?",
                  r"(match \1 { Ok(it) => it, Err(e) => return Err(e) })", body)


REWRITES = [
    (r"&mut self\.bufs\[(\w+)\]", r"self.bufs.at_mut(\1)"),
    (r"self\.bufs\s*\.iter\(\)\s*\.map\(\|(\w+)\| (\w+)\.remaining\(\)\)\s*\.sum(?:::<usize>)?\(\)",
     r"self.bufs.sum_of(|\1: &T| -> (n: usize) requires \1.sound() ensures n == \1.bytes().len() { \2.remaining() })"),
    (r"self\.bufs\.front\(\)\.map\(Buf::chunk\)\.unwrap_or_default\(\)",
     r"match self.bufs.front() { Some(b) => b.chunk(), None => nothing() }"),
    (r"(\w+)\.chunks_vectored\(&mut (\w+)\[(\w+)\.\.\]\)", r"chunks_at(\1, \2, \3)"),
    # what `for` stands for
    (r"\bfor (\w+) in &self\.bufs \{", r"let mut each = self.bufs.each(); while let Some(\1) = each.next() {"),
    (r"\bfor \((\w+), (\w+)\) in (\w+)\.enumerate\(\) \{",
     r"let mut each = \3; let mut nth: usize = 0; while let Some(\2) = each.next() { let \1 = nth; nth += 1;"),
    (r"(self\.connection\.send_and_forget\([^()]*\))\?;", r"match \1 { Ok(()) => {}, Err(e) => return Err(e) }"),
    (r"(\w+)\.put\(self\.take\((\w+)\)\)", r"put_taken(&mut \1, self, \2)"),
]


def loops(body, anns):
    """Puts the invariants before the bodies of the loops."""
    out, i, k = "", 0, 0
    for m in list(re.finditer(r"\b(while|loop|for)\b", body)):
        if m.start() < i:
            raise Lost("nested loops")
        j = m.end()
        while body[j] != "{":
            j = close(body, j) if body[j] in "([" else j + 1
        if k >= len(anns):
            raise Lost("more loops than invariants")
        out += body[i:j] + "\n" + anns[k] + "\n"
        i = j
        k += 1
        # the body may not contain another one, as far as the invariants go
    if k != len(anns):
        raise Lost("fewer loops than invariants")
    return out + body[i:]


def build(job, repo, verif):
    out, fns = [], []
    lines = open(os.path.join(verif, job["extract"])).read().split("\n")
    i = 0
    while i < len(lines):
        l = lines[i].strip()
        if l.startswith("//@struct"):
            f, name = [x.strip() for x in l[len("//@struct"):].split("|")]
            src = strip(open(os.path.join(repo, f)).read())
            m = re.search(r"struct %s\((?:pub )?([\w<>]+)\);" % name, src)
            if m:
                out.append("pub struct %s(pub %s);" % (name, m.group(1)))
                i += 1
                continue
            m = re.search(r"(?:pub(?:\([a-z: ]*\))? )?struct %s\b[^;{]*([;{])" % name, src)
            if not m or m.group(1) != "{":
                raise Lost("struct " + name)
            text = src[m.start():close(src, m.end() - 1)]
            text = re.sub(r"pub\([a-z: ]*\) ", "pub ", text)
            out.append(re.sub(r"(\{|,)\s*(?:pub )?(\w+):", r"\1 pub \2:", text))
            i += 1
            continue
        if l.startswith("//@only"):
            f, impl, names = [x.strip() for x in l[len("//@only"):].split("|")]
            src = strip(open(os.path.join(repo, f)).read())
            more = set(n for h, b in blocks(src) if h == norm(impl) for n in re.findall(r"\bfn (\w+)", b)) - set(names.split())
            if more:
                raise Lost("`%s` has other functions: %s" % (impl, " ".join(sorted(more))))
            i += 1
            continue
        if l.startswith("//@enum"):
            f, name = [x.strip() for x in l[len("//@enum"):].split("|")]
            src = strip(open(os.path.join(repo, f)).read())
            m = re.search(r"pub enum %s\s*\{" % name, src)
            if not m:
                raise Lost("enum " + name)
            out.append(src[m.start():close(src, m.end() - 1)])
            i += 1
            continue
        if l.startswith("//@const"):
            f, name = [x.strip() for x in l[len("//@const"):].split("|")]
            m = re.findall(r"\bconst %s: [^;]*;" % name, strip(open(os.path.join(repo, f)).read()))
            # it may have become a literal
            out += ["pub " + c for c in m[:1]]
            i += 1
            continue
        if not l.startswith("//@fn"):
            out.append(lines[i])
            i += 1
            continue
        f, impl, name = [x.strip() for x in l[len("//@fn"):].split("|")]
        contract, uses, anns, opts, rets, captured = [], [], [], [], [], []
        dst = contract
        attrs = "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n"
        i += 1
        while not lines[i].strip().startswith("//@end"):
            l = lines[i].strip()
            if l.startswith("//@use"):
                uses.append(l[len("//@use"):].strip())
            elif l.startswith("//@loop"):
                anns.append([])
                dst = anns[-1]
            elif l.startswith("//@self"):
                opts.append(l[len("//@self"):].strip())
            elif l.startswith("//@ret"):
                rets.append(l[len("//@ret"):].strip())
            elif l.startswith("//@name"):
                captured.append(l[len("//@name"):].strip())
            elif l.startswith("//@forever"):
                attrs += "#[verifier::exec_allows_no_decreases_clause]\n"
            elif l.startswith("//@"):
                raise Lost("template: " + l)
            else:
                dst.append(lines[i])
            i += 1
        i += 1
        head, params, ret, body = function(os.path.join(repo, f), impl, name)
        names = []
        for a in split_args(params[1:-1], True):
            if re.match(r"^(&\s*('\w+\s+)?)?(mut\s+)?self$", a):
                continue
            m = re.match(r"^(?:mut\s+)?(\w+)\s*:", a)
            if not m:
                raise Lost("parameter " + a)
            names.append(m.group(1))

        vars = {}
        for c in captured:
            a, b = c.split(" = ", 1)
            got = re.findall(b, body)
            if len(got) != len(a.split()):
                raise Lost("variables of " + name)
            vars.update(zip(a.split(), got))
        m = re.search(r"[;}]\s*(\w+)\s*$", body)
        tail = m.group(1) if m else None

        def fill(t):
            t = "\n".join(t)
            if re.search(r"\$r\b", t):
                if tail is None:
                    # nothing is handed on after the loop
                    t = t[:t.index("ensures")]
                else:
                    t = re.sub(r"\$r\b", tail, t)
            for k, n in enumerate(names):
                t = t.replace("$%d" % (k + 1), n)
            t = t.replace("$0", "entry")
            for k, n in vars.items():
                t = re.sub(r"\$%s\b" % k, n, t)
            return t
        for o in opts:
            a, b = [x.strip() for x in o.split("=>")]
            if not params.startswith("(" + a):
                raise Lost("receiver of " + name)
            params = params.replace(a, b, 1)
        body = asserts(body)
        body = owned(body)
        for a, b in REWRITES:
            body = re.sub(a, b, body)
        body = loops(body, [fill(a) for a in anns])
        for o in rets:
            a, b = [x.strip() for x in o.split("=>")]
            ret = ret.replace(a, b)
        m = re.match(r"^->\s*(.*)$", ret)
        ret = "-> (r: %s)" % m.group(1) if m else ""
        pre = ""
        if uses:
            pre += "broadcast use {%s};\n" % ", ".join(uses)
        if any("$0" in "\n".join(a) for a in anns):
            pre += "let ghost entry = %s;\n" % names[0]
        out.append(attrs + "%s%s %s\n%s\n{\n%s%s\n}" %
                   (head, params, ret, fill(contract), pre, body))
        fns.append("%s::%s" % (impl, name))
        i += 0
    return "\n".join(out), fns
