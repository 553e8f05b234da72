"""Assemble a Verus file from a template in /verif/specs and the current text of /repo.

The template holds specifications only; every executable function, struct, enum and constant under
contract is copied from /repo on each run at `//@fn`, `//@struct`, `//@const` directives.  The
rewriting applied to the copied text is the fixed list DROPS below plus the explicit `//@  sub`
lines of the template; nothing else changes.
"""
import json, os, re, subprocess

REPO = os.environ.get("VX_REPO", "/repo")

DROPS = [
    "attributes and doc comments",
    "visibility qualifiers (everything is made visible to the verifier)",
    "async / .await (each await point is treated as an ordinary call: exclusive access to &mut self during the call)",
    "log::*!/println!/eprintln! statements",
    "anyhow!/format! message texts (replaced by an unspecified error / string value)",
    "`for P in E {B}` becomes an explicit iterator loop over the same sequence (vx_into_it)",
    "iterator adapter names get the prefix vx_ (contract-carrying stand-ins for core::iter adapters)",
]

RENAME = {m: "vx_" + m for m in """iter iter_mut into_iter filter filter_map flat_map collect cloned copied any all
 position find count sum rev take take_while skip zip enumerate chain unique sorted sorted_by sorted_by_key
 retain contains extend extend_from_slice concat sort sort_by sort_by_key reverse truncate dedup drain last first map map_or map_or_else and_then
 then then_some unwrap_or unwrap_or_default unwrap_or_else ok or_else or ok_or then_with
 get get_mut entry or_insert or_insert_with or_default and_modify keys values values_mut into_keys into_values
 choose shuffle to_vec to_string next for_each inspect flatten max min last_mut first_mut
 append swap split_off join is_some_and partition fold expect ok_or_else as_ref as_mut is_err is_ok
 is_some is_none remove insert contains_key find_map pop push is_empty len clear entry starts_with windows chunks get_or_insert_with map_err
 """.split()}
# names that keep their std meaning because vstd specifies them
KEEP = {"map", "push", "pop", "len", "is_some", "is_none", "unwrap_or", "get", "get_mut", "insert", "remove", "contains_key",
        "entry", "or_insert", "or_insert_with", "or_default", "and_modify", "keys", "values", "is_empty", "clear", "next",
        "is_ok", "is_err", "expect", "as_ref", "as_mut", "or", "ok_or", "values_mut", "into_keys", "into_values"}


class LostAnchor(Exception):
    fn = None       # the function whose sections no longer fit
    gone = False    # the function itself was not found


def vx_bin():
    return os.environ["VX_BIN"]


_index = {}


def index(rel):
    if rel not in _index:
        path = os.path.join(REPO, rel)
        if not os.path.exists(path):
            raise LostAnchor(f"file {rel} is gone")
        out = subprocess.run([vx_bin(), path], capture_output=True, text=True)
        d = json.loads(out.stdout)[path]
        if "error" in d:
            raise LostAnchor(f"{rel}: {d['error']}")
        _index[rel] = (open(path, "rb").read(), d["items"])
    return _index[rel]


def find(rel, kind, path):
    src, items = index(rel)
    c = [i for i in items if i["path"] == path and i["kind"] in kind]
    if kind == ("fn",):
        c = [i for i in c if not any("cfg" in a and ("test" in a or "wasm" in a) and "not" not in a for a in i["attr_text"])]
    if len(c) != 1:
        raise LostAnchor(f"{rel}: {len(c)} items named {path}")
    return src, c[0]


class Edits:
    def __init__(self, src, a, b):
        self.src, self.a, self.b, self.e = src, a, b, []
        self.n = 0

    def rep(self, s, e, text, prio=0):
        self.n += 1
        self.e.append((s, e, text, prio, self.n))

    def ins(self, at, text, prio=0):
        self.rep(at, at, text, prio)

    def render(self):
        # Nested replacements: outer deletions swallow inner edits.
        es = sorted(self.e, key=lambda x: (x[0], -(x[1] - x[0]) if x[1] > x[0] else 0, x[3], x[4]))
        dels = [(s, e) for (s, e, t, p, n) in es if e > s]
        out, pos = [], self.a
        # insertions at same position come first by prio, then replacement
        es = sorted(self.e, key=lambda x: (x[0], 0 if x[0] == x[1] else 1, x[3], x[4]))
        for (s, e, t, p, n) in es:
            if s < self.a or e > self.b:
                continue
            if any(ds <= s and e <= de and (ds, de) != (s, e) and not (s == e and (s == ds or s == de)) for ds, de in dels):
                continue
            if s < pos:
                continue
            out.append(self.src[pos:s].decode())
            out.append(t)
            pos = e
        out.append(self.src[pos:self.b].decode())
        return "".join(out)


def parse_opts(s):
    d = {}
    for m in re.finditer(r'(\w+)=("([^"]*)"|\S+)', s):
        d[m.group(1)] = m.group(3) if m.group(3) is not None else m.group(2)
    return d


MACRO_DROP = re.compile(r"^(log::\w+|println|eprintln|print|debug|info|warn|error|trace)$")


def spelled(text):
    """format!("a{}b{x}", y) as vx_fmt2("a", &(y), "b", &(x), ""): the pieces one after the other."""
    m = re.match(r'format!\s*[({\[]\s*"((?:[^"\\]|\\.)*)"\s*(?:,(.*?))?,?\s*[)}\]]$', text, re.S)
    if not m or "{{" in m.group(1) or "}}" in m.group(1):
        return "vx_string()"
    args, depth, curr = [], 0, ""
    for ch in m.group(2) or "":
        depth += ch in "([{"
        depth -= ch in ")]}"
        if ch == "," and depth == 0:
            args.append(curr.strip())
            curr = ""
        else:
            curr += ch
    if curr.strip():
        args.append(curr.strip())
    named = {a.split("=", 1)[0].strip(): a.split("=", 1)[1].strip() for a in args if re.match(r"^\w+\s*=[^=]", a)}
    args = [a for a in args if not re.match(r"^\w+\s*=[^=]", a)]
    parts = re.split(r"\{([^}]*)\}", m.group(1))
    res, k = ['"' + parts[0] + '"'], 0
    for name, lit in zip(parts[1::2], parts[2::2]):
        if name == "":
            if k >= len(args):
                return "vx_string()"
            a = args[k]
            k += 1
        elif re.match(r"^\d+$", name) and int(name) < len(args):
            a = args[int(name)]
        elif re.match(r"^[A-Za-z_]\w*$", name):
            a = named.get(name, name)
        else:
            return "vx_string()"
        res += [f"&({a})", '"' + lit + '"']
    return f"vx_fmt{len(res) // 2}({', '.join(res)})"


def build_fn(rel, path, opts, sect, subs, vac, meta, trust=False):
    src, it = find(rel, ("fn",), path)
    s, e = it["span"]
    ed = Edits(src, s, e)
    # outer attributes, visibility
    for a in it["attrs"]:
        ed.rep(a[0], a[1], "")
    if it["vis"] and it["vis"][1] > it["vis"][0]:
        ed.rep(it["vis"][0], it["vis"][1], "pub" if opts.get("vis") != "none" else "")
    elif opts.get("vis") != "none":
        ed.ins(it["sig"][0], "pub ")
    if it["is_async"]:
        ed.rep(it["is_async"][0], it["is_async"][1], "")
    for a in it["inner_attrs"]:
        ed.rep(a[0], a[1], "")
    for a in it["awaits"]:
        ed.rep(a[0], a[1], "")
    if "as" in opts:
        ed.rep(it["name"][0], it["name"][1], opts["as"])
    ret = opts.get("ret", "res")
    if it["output"]:
        o = it["output"]
        ty = opts.get("retty") or src[o[0]:o[1]].decode()
        ed.rep(o[0], o[1], f"({ret}: {ty})")
    # text the template replaces itself
    whole = src[s:e].decode()
    taken = []
    for key in sect:
        m = re.match(r'replace "(.*)"( \d+)?$', key)
        if m:
            occ = [x.start() for x in re.finditer(re.escape(m.group(1)), whole)]
            if occ:
                at = s + len(whole[:occ[int(m.group(2) or 0) if int(m.group(2) or 0) < len(occ) else 0]].encode())
                taken.append((at, at + len(m.group(1).encode())))
    # macros
    stmt_macro = {tuple(x["span"]) for x in it["stmts"] if x["macro"]}
    dropped = []
    for st in it["stmts"]:
        if st["macro"] and MACRO_DROP.match(st["mpath"]):
            ed.rep(st["span"][0], st["span"][1], "")
            dropped.append(tuple(st["span"]))
    for m in it["macros"]:
        if any(a <= m["span"][0] and m["span"][1] <= b for a, b in dropped):
            continue
        if any(a <= m["span"][0] and m["span"][1] <= b for a, b in taken):
            continue
        if MACRO_DROP.match(m["path"]):
            ed.rep(m["span"][0], m["span"][1], "()")
        elif m["path"] in ("anyhow", "anyhow::anyhow"):
            ed.rep(m["span"][0], m["span"][1], "vx_err()")
        elif m["path"] in ("anyhow::bail", "bail"):
            ed.rep(m["span"][0], m["span"][1], "return Err(vx_err())")
        elif m["path"] == "format":
            ed.rep(m["span"][0], m["span"][1], spelled(src[m["span"][0]:m["span"][1]].decode()) if opts.get("fmt") else "vx_string()")
    # methods
    for m in it["methods"]:
        n = m["name"]
        if n in RENAME and n not in KEEP:
            ed.rep(m["name_span"][0], m["name_span"][1], RENAME[n])
        if m["recv_range"]:
            a, b = m["recv"]
            ed.rep(a, a + 1, "vx_range((")
            ed.rep(b - 1, b, "))")
    # closures: a destructuring parameter P becomes vx_p<i> with `let P = vx_p<i>;` at the body start
    for k, c in enumerate(it["closures"]):
        key = f"closure {k}"
        lets = ""
        newp = []
        for j, pr in enumerate(c["params"]):
            t = src[pr["span"][0]:pr["span"][1]].decode()
            pat = t.split(":")[0].strip() if pr["typed"] else t
            if not re.match(r"^(mut\s+)?\w+$", pat) or pat == "_":
                newp.append(f"vx_p{j}" + (":" + t.split(":", 1)[1] if pr["typed"] else ""))
                if pat != "_":
                    mm = re.match(r"^(&+)\s*(?:mut\s+)?(\w+)$", pat)
                    lets += f"let {mm.group(2)} = {'*' * len(mm.group(1))}vx_p{j}; " if mm else f"let {pat} = vx_p{j}; "
            else:
                newp.append(t)
        if key in sect or lets or any(x.startswith("vx_p") for x in newp):
            arg, lines = sect.get(key, ("", []))
            hdr = None
            m = re.search(r"header:(.*)$", arg)
            if m:
                hdr = m.group(1).strip()
                arg = arg[:m.start()].strip()
            if hdr is None and any(x.startswith("vx_p") for x in newp):
                hdr = ("move " if c["move"] else "") + "|" + ", ".join(newp) + "|"
            if hdr:
                ed.rep(c["header"][0], c["header"][1], hdr)
            txt = " " + arg + "\n" + "\n".join(lines) + "\n"
            if c["block"]:
                ed.ins(c["header"][1], txt)
                if lets:
                    ed.ins(c["body"][0] + 1, lets)
            else:
                ed.ins(c["header"][1], txt + "{ " + lets, prio=5)
                ed.ins(c["body"][1], " }", prio=-5)
    # loops
    for k, l in enumerate(it["loops"]):
        spec = "\n".join(sect.get(f"loop {k}", ("", []))[1])
        ls = "\n".join(sect.get(f"loopstart {k}", ("", []))[1])
        le = "\n".join(sect.get(f"loopend {k}", ("", []))[1])
        la = "\n".join(sect.get(f"afterloop {k}", ("", []))[1])
        lb = "\n".join(sect.get(f"beforeloop {k}", ("", []))[1])
        if vac and f"loop {k}" in sect:
            ls = "proof { assert(false); } // VACUITY\n" + ls
        b0, b1 = l["body"]
        if l["kind"] == "for":
            pat = src[l["pat"][0]:l["pat"][1]].decode()
            ed.rep(l["span"][0], l["expr"][0], f"{{ let mut vx_it{k} = vx_into(", prio=-1)
            ed.rep(l["expr"][1], b0 + 1,
                   f"); {lb}\n while vx_it{k}.has_more()\n{spec}\n{{ let {pat} = vx_it{k}.take_next();\n{ls}\n")
            ed.ins(b1 - 1, f";\n{le}\n" if le else "\n", prio=9)
            ed.ins(b1, f"\n{la}\n}}", prio=-9)
        else:
            if lb:
                ed.ins(l["span"][0], f"{lb}\n")
            ed.rep(b0, b0 + 1, f"\n{spec}\n{{\n{ls}\n")
            ed.ins(b1 - 1, f";\n{le}\n" if le else "\n", prio=9)
            if la:
                ed.ins(b1, f"\n{la}\n", prio=-9)
    # contract
    b0, b1 = it["body"]
    entry = "\n".join(sect.get("entry", ("", []))[1])
    if vac and opts.get("vac") != "no":
        entry = "proof { assert(false); } // VACUITY\n" + entry
    ed.rep(b0, b0 + 1, "\n" + "\n".join(sect.get("spec", ("", []))[1]) + "\n{\n" + entry + "\n")
    if "exit" in sect:
        ex = "\n".join(sect["exit"][1])
        if it["tail"] and it["output"]:
            ed.ins(it["tail"][0], f"let {ret}: {ty} = ", prio=-20)
            ed.ins(it["tail"][1], f";\n{ex}\n{ret}", prio=20)
        else:
            semi = ";" if it["tail"] else ""
            ed.ins(b1 - 1, f"{semi}\n{ex}\n", prio=20)
    body_src = src[s:e].decode()
    for key, (arg, lines) in sect.items():
        m = re.match(r'(before|after|replace) "(.*)"( \d+)?$', key)
        if not m:
            continue
        t = m.group(2)
        occ = [x.start() for x in re.finditer(re.escape(t), body_src)]
        want = int(m.group(3)) if m.group(3) else None
        if not occ or (want is None and len(occ) != 1) or (want is not None and want >= len(occ)):
            raise LostAnchor(f"{path}: text {t!r} found {len(occ)} times")
        at = s + len(body_src[:occ[want or 0]].encode())
        txt = "\n".join(lines)
        if m.group(1) == "before":
            ed.ins(at, f"{txt}\n", prio=1)
        elif m.group(1) == "after":
            ed.ins(at + len(t.encode()), f"\n{txt}\n", prio=1)
        else:
            ed.rep(at, at + len(t.encode()), txt)
    if trust:
        ed.rep(b0, b1, "\n" + "\n".join(sect.get("spec", ("", []))[1]) + "\n{ unimplemented!() }")
    # Comments on lines of their own carry nothing, and would be in the way of the patterns.
    out = re.sub(r"(?m)^[ \t]*//[^\n]*\n", "", ed.render())
    for (a, b, must) in subs:
        n = re.sub(a, b, out)
        if must and n == out and not trust:
            raise LostAnchor(f"{path}: pattern {a!r} no longer present")
        out = n
    if trust:
        out = "#[verifier::external_body]\n" + out.lstrip()
    line = src[:s].count(b"\n") + 1
    sig = {"loops": [l["kind"] for l in it["loops"]], "closures": len(it["closures"]),
           "returns": len(it["returns"])}
    meta["fns"].append({"fn": path, "file": rel, "line": line, "shape": sig})
    return out


def build_type(rel, name, opts, subs, meta, kinds=("struct", "enum")):
    src, it = find(rel, kinds, name)
    s, e = it["span"]
    ed = Edits(src, s, e)
    for a in it.get("attrs", []) + it.get("inner_attrs", []):
        ed.rep(a[0], a[1], "")
    if it["kind"] == "struct":
        v = it["vis"]
        if v[1] > v[0]:
            ed.rep(v[0], v[1], "pub")
        else:
            ed.ins(it["kw"], "pub ")
        for f in it["fields"]:
            if f["has_vis"]:
                ed.rep(f["vis"][0], f["vis"][1], "pub")
            else:
                ed.ins(f["start"], "pub ")
    out = ed.render()
    if it["kind"] == "enum":
        out = re.sub(r"^\s*(pub(\([^)]*\))?\s+)?enum", "pub enum", out.strip(), count=1)
    for (a, b, must) in subs:
        n = re.sub(a, b, out)
        if must and n == out:
            raise LostAnchor(f"{name}: pattern {a!r} no longer present")
        out = n
    if "derive" in opts:
        out = f"#[derive({opts['derive']})]\n" + out
    if "attr" in opts:
        out = opts["attr"] + "\n" + out
    meta["types"].append(f"{rel}:{name}")
    return out


def build_const(rel, name, opts, subs, meta):
    src, it = find(rel, ("const",), name)
    out = src[it["span"][0]:it["span"][1]].decode()
    out = re.sub(r"^(\s*(//[^\n]*\n|/\*.*?\*/|#\[[^\n]*\]\s*\n))*\s*(pub(\([^)]*\))?\s+)?const", "pub const", out, flags=re.S)
    for (a, b, must) in subs:
        out = re.sub(a, b, out)
    meta["types"].append(f"{rel}:const {name}")
    return out


GLOBAL_SUBS = [
    (r"anyhow::Result<", "VResult<", False),
    (r"anyhow::Error\b", "VErr", False),
]


def assemble(template, vac=False, skip=()):
    """Functions in `skip` keep their contract but are taken on trust (external_body).
    Returns (text, meta). meta['map'] lists (first_line, last_line, fn, file, repo_line)."""
    lines = open(template).read().split("\n")
    meta = {"fns": [], "types": [], "map": [], "subs": []}
    files, subs = {}, list(GLOBAL_SUBS)
    out = []

    def cur():
        return sum(x.count("\n") + 1 for x in out) + 1

    i = 0
    while i < len(lines):
        l = lines[i]
        st = l.strip()
        if st.startswith("//@include "):
            p = os.path.join(os.path.dirname(template), st.split()[1])
            t, m = assemble(p, vac, skip)
            base = cur()
            out.append(t)
            for k in ("fns", "types", "subs"):
                meta[k] += m[k]
            meta["map"] += [(a + base - 1, b + base - 1, *r) for a, b, *r in m["map"]]
            i += 1
        elif st.startswith("//@file "):
            _, name, p = st.split()
            files[name] = p
            i += 1
        elif st.startswith("//@sub "):
            m = re.match(r'//@sub(!?) /(.*)/ => /(.*)/$', st.replace("//@sub !", "//@sub!"))
            m = re.match(r'//@sub (!?)\s*/(.*?)/ => /(.*)/$', st)
            subs.append((m.group(2), m.group(3), bool(m.group(1))))
            meta["subs"].append(f"{m.group(2)} => {m.group(3)}")
            i += 1
        elif st.startswith("//@struct ") or st.startswith("//@enum ") or st.startswith("//@const ") or st.startswith("//@type "):
            p = st.split(None, 3)
            opts = parse_opts(p[3] if len(p) > 3 else "")
            ls = list(subs)
            i += 1
            while i < len(lines) and lines[i].strip().startswith("//@  sub "):
                m = re.match(r'//@  sub (!?)\s*/(.*?)/ => /(.*)/$', lines[i].strip())
                ls.append((m.group(2), m.group(3), bool(m.group(1))))
                meta["subs"].append(f"{p[2]}: {m.group(2)} => {m.group(3)}")
                i += 1
            if st.startswith("//@const"):
                out.append(build_const(files[p[1]], p[2], opts, ls, meta))
            elif st.startswith("//@type"):
                out.append(build_type(files[p[1]], p[2], opts, ls, meta, ("type",)))
            else:
                out.append(build_type(files[p[1]], p[2], opts, ls, meta))
        elif st.startswith("//@fn "):
            rest = st[len("//@fn "):]
            al, rest = rest.split(None, 1)
            m = re.match(r"(<[^>]*(?:<[^>]*>)?[^>]*>::\w+|\S+)(.*)$", rest)
            if rest.startswith("`"):
                path, tail = rest[1:].split("`", 1)
            else:
                path, tail = m.group(1), m.group(2)
            opts = parse_opts(tail)
            sect, key, ls = {}, None, list(subs)
            i += 1
            while lines[i].strip() != "//@end":
                t = lines[i].strip()
                if t.startswith("//@ "):
                    t = t[3:].strip()
                    if t.startswith("sub "):
                        m = re.match(r'sub (!?)\s*/(.*?)/ => /(.*)/$', t)
                        ls.append((m.group(2), m.group(3), bool(m.group(1))))
                        meta["subs"].append(f"{path}: {m.group(2)} => {m.group(3)}")
                        key = None
                    else:
                        m = re.match(r'((?:before|after|replace) ".*"(?: \d+)?)$', t) or \
                            re.match(r'((?:loop|loopstart|loopend|afterloop|beforeloop|closure) \d+)\b(.*)$', t) or \
                            re.match(r'(spec|entry|exit)\b(.*)$', t)
                        if not m:
                            raise Exception("bad directive " + t)
                        key = m.group(1)
                        sect[key] = (m.group(2).strip() if m.lastindex and m.lastindex >= 2 else "", [])
                        if key.startswith("replace"):
                            meta["subs"].append(f"{path}: {key}")
                elif key is not None:
                    sect[key][1].append(lines[i])
                i += 1
            i += 1
            a = cur()
            if path in skip:
                o2 = dict(opts, vac="no")
                keep = {"spec": sect["spec"]} if "spec" in sect else {}
                try:
                    txt = build_fn(files[al], path, o2, keep, ls, False, meta, trust=True)
                except LostAnchor:      # the function is gone: leave it out, its callers will not resolve
                    continue
            else:
                try:
                    txt = build_fn(files[al], path, opts, sect, ls, vac, meta)
                except LostAnchor as e:
                    e.fn = path
                    e.gone = "items named" in str(e) or "is gone" in str(e)
                    raise
            out.append(txt)
            f = meta["fns"][-1]
            f["sections"] = sorted(sect)
            f["tags"] = sorted(set(re.findall(r"\[([A-Z]\d{2,3})\]", "\n".join("\n".join(v[1]) for v in sect.values()))))
            meta["map"].append((a, cur() - 1, path, files[al], f["line"]))
        else:
            out.append(l)
            i += 1
    return "\n".join(out), meta


if __name__ == "__main__":
    import sys
    t, m = assemble(sys.argv[1], vac="--vac" in sys.argv)
    sys.stdout.write(t)
