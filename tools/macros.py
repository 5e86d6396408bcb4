"""Driver: writes the cases of a TLC run over spec/Macro.tla as programs that invoke the
compile-time macros, compiles and runs them, and reports what differs.

   macros.py macros dir=DIR      cases on stdin, one TLC line each"""
import json, os, re, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAMES = {"u2": "é", "u3": "漢", "u4": "😀", "us": "\u00a0", "uw": "\u3000", "uc": "\u0301", "ul": "\u2028", "cl": "\u0085",
         "vt": "\x0b", "ff": "\x0c", "nul": "\x00", "bs": "\\"}
BINS = 8


def decode(line):
    m = re.match(r'<<"E", (".*")>>\s*$', line)
    return json.loads(json.loads(m.group(1))) if m else None


def real(t):
    return "".join(NAMES.get(c, c) for c in t)


def literal(s, kind):
    if kind == "raw":
        n = 1
        while '"' + "#" * n in s:
            n += 1
        return 'r%s"%s"%s' % ("#" * n, s, "#" * n)
    if kind == "esc":
        out = ""
        for k, c in enumerate(s):
            if c == "\n":
                # now and then the line goes on in the next one, as far as the program is concerned
                out += "\\n"
            elif c in "\\\"":
                out += "\\" + c
            elif c == "\r":
                out += "\\r"
            elif c == "\t":
                out += "\\t" if k % 2 else "\t"
            elif c == "\0":
                out += "\\0"
            elif ord(c) < 32:
                out += "\\x%02x" % ord(c)
            elif ord(c) > 126:
                out += "\\u{%x}" % ord(c) if k % 2 else c
            else:
                out += c
        return '"%s"' % out
    if kind == "bytes":
        out = ""
        for c in s.encode():
            if c == 10:
                out += "\\n"
            elif chr(c) in "\\\"":
                out += "\\" + chr(c)
            elif c < 32 or c > 126:
                out += "\\x%02x" % c
            else:
                out += chr(c)
        return 'b"%s"' % out
    raise ValueError(kind)


def toml(name, n):
    return """[package]
name = "macroprogram"
version = "0.1.0"
edition = "2018"
autobins = false

[workspace]

[dependencies]
macrocheck = { path = "%s/macrocheck" }
vimwiki = { path = "/repo/vimwiki", features = ["macros"] }

[profile.dev]
debug = 0
opt-level = 0
incremental = false
""" % V + "".join('\n[[bin]]\nname = "%s-%d"\npath = "b%d.rs"\n' % (name, k, k) for k in range(n))


def program(ks, cases):
    """the text of the program, and which case each line belongs to"""
    out, own = ["#![allow(warnings)]", "use macrocheck::Checks;"], {}
    for k in ks:
        c = cases[k]
        first = len(out)
        args = ', "cool", 42, \'y\', 3.5, x = "a*b", yy = "漢"' if c["fmt"] else ""
        text = ["fn c%d(o: &mut Checks) {" % k]
        for m, place in c["m"]:
            mac = "vimwiki_%s%s%s" % (m, "_raw" if c["raw"] else "", "_format" if c["fmt"] else "")
            text.append('    o.val(%d, "%s", "%s", || vimwiki::macros::%s!(%s%s));' % (k, mac, place, mac, literal(real(c["t"]), c["lit"]), args))
        text.append("}")
        out += "\n".join(text).split("\n")
        for n in range(first, len(out)):
            own[n + 1] = k
    out.append("fn main() { Checks::main(|o| { %s }) }" % " ".join("c%d(o);" % k for k in ks))
    return "\n".join(out) + "\n", own


def main():
    opts = dict(a.split("=", 1) for a in sys.argv[2:])
    d = opts["dir"]
    lines, cases, seen = [], [], set()
    total = 0
    for line in sys.stdin.buffer:
        line = line.decode("utf-8", "replace")
        if not line.startswith('<<"E"'):
            sys.stderr.write(line)
            continue
        total += 1
        c = decode(line)
        key = (real(c["t"]), c["lit"], c["raw"])
        if key in seen:
            continue
        seen.add(key)
        cases.append(c)
        lines.append(line.strip())
    name = re.sub(r"[^a-z0-9]+", "-", os.path.basename(d).lower()).strip("-") or "m"
    root = os.path.join(d, "program")
    os.makedirs(root, exist_ok=True)
    with open(os.path.join(root, "cases"), "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    lock = os.path.join(V, "macrocheck", "program.lock")
    if os.path.exists(lock):
        open(os.path.join(root, "Cargo.lock"), "w").write(open(lock).read())
    nb = min(BINS, max(1, len(cases) // 10))
    bad = {}
    for attempt in range(6):
        left = [k for k in range(len(cases)) if k not in bad]
        own = []
        for b in range(nb):
            text, o = program(left[b::nb], cases)
            open(os.path.join(root, "b%d.rs" % b), "w").write(text)
            own.append(o)
        open(os.path.join(root, "Cargo.toml"), "w").write(toml(name, nb))
        e = dict(os.environ, HOME="/root", CARGO_TARGET_DIR=os.path.join(V, "harness", "target"), RUSTFLAGS="-Awarnings", RUST_MIN_STACK=str(256 << 20),
                 CARGO_INCREMENTAL="0")
        try:
            p = subprocess.run(["cargo", "build", "--offline", "--keep-going", "--message-format=json"], cwd=root, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        except subprocess.TimeoutExpired:
            bad[left[0]] = {"hang": 300, "what": "compiling the program of this and other cases does not end"}
            break
        if p.returncode == 0:
            break
        found = 0
        for l in p.stdout.decode().split("\n"):
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            for sp in m["message"]["spans"]:
                while sp.get("expansion") and not re.match(r"b\d+\.rs$", sp["file_name"]):
                    sp = sp["expansion"]["span"]
                f = re.match(r"b(\d+)\.rs$", sp["file_name"])
                k = own[int(f.group(1))].get(sp["line_start"]) if f else None
                if k is not None and k not in bad:
                    bad[k] = {"does not compile": m["message"]["message"][:600]}
                    found += 1
        err = p.stderr.decode(errors="replace")
        if not found and "could not compile `macroprogram`" in err:
            bad[left[0]] = {"does not compile": err[-600:], "what": "the program of this and other cases"}
            break
        if not found:
            sys.stderr.write(p.stderr.decode(errors="replace")[-4000:])
            sys.exit(4)
    built = not any("what" in v for v in bad.values()) and p.returncode == 0
    tags = {}
    if built:
        for b in range(nb):
            exe = os.path.join(V, "harness", "target", "debug", "%s-%d" % (name, b))
            r = subprocess.run([exe, os.path.join(root, "cases")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
            out = r.stdout.decode().split("\n")
            for l in out:
                w = l.split(" ", 2)
                if w[0] == "BAD" and int(w[1]) not in bad:
                    bad[int(w[1])] = json.loads(w[2])
            if "DONE" not in out:
                done = [int(l.split(" ", 2)[1]) for l in out if l[:3] in ("OK ", "BAD")]
                mine = [k for k in range(len(cases)) if k not in bad][b::nb] if not bad else []
                nxt = [k for k in mine if k not in done]
                k = nxt[0] if nxt else (done[-1] if done else 0)
                bad.setdefault(k, {"crash": r.returncode, "stderr": r.stderr.decode(errors="replace")[-400:]})

            os.remove(exe)
    samples, distinct = [], 0
    for k, c in enumerate(cases):
        if k in bad:
            continue
        distinct += 1
        for m, _ in c["m"]:
            tags[m] = tags.get(m, 0) + 1
        for t in [c["lit"]] + (["raw mode"] if c["raw"] else ["indented"]) + (["format"] if c["fmt"] else []):
            tags[t] = tags.get(t, 0) + 1
        if k % max(1, len(cases) // 4) == 0:
            samples.append(real(c["t"]))
    fails = [dict(len=len(cases[k]["t"]), case=literal(real(cases[k]["t"]), cases[k]["lit"]) + (" (format)" if cases[k]["fmt"] else ""),
                  diff=v, line=lines[k]) for k, v in bad.items()]
    fails.sort(key=lambda f: f["len"])
    print(json.dumps(dict(cases=total, distinct=len(cases), tags=tags, samples=samples, nfail=len(fails), failures=fails[:40])))


main()
