"""Driver: performs the cases of a TLC run with the vimwiki command line tool, each in a scratch
directory of its own and as a user who owns nothing else, and compares what is there afterwards
with what the specification says.

   cli.py OP dir=DIR      cases on stdin, one TLC line each
   OP: cache (spec/Cache.tla)"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, traceback
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOBODY = 65534
TARGET = os.path.join(V, "harness", "target", "debug")


def decode(line):
    m = re.match(r'<<"E", (".*")>>\s*$', line)
    return json.loads(json.loads(m.group(1))) if m else None


class Diff(Exception):
    def __init__(self, **k):
        self.diff = k


def clip(x, n=1500):
    return x if len(x) <= n else x[:n] + "…"


class Library:
    """what the library of the working tree says about single texts"""

    def __init__(self):
        e = dict(os.environ, HOME="/home/vw u")
        self.p = subprocess.Popen([os.path.join(TARGET, "vwharness"), "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e)
        self.lock = threading.Lock()
        self.known = {}

    def ask(self, **q):
        k = json.dumps(q, sort_keys=True)
        with self.lock:
            if k not in self.known:
                self.p.stdin.write(k.encode() + b"\n")
                self.p.stdin.flush()
                a = json.loads(self.p.stdout.readline())
                self.known[k] = a
            return self.known[k]

    def html(self, config, page, wiki, text):
        a = self.ask(op="html", config=config, page=page, wiki=wiki, text=text)
        if "html" not in a:
            raise Diff(what="the library does not render", text=text, answer=a)
        return a["html"]

    def is_page(self, data, text):
        try:
            s = data.decode()
        except UnicodeDecodeError:
            return False
        return self.ask(op="same", json=s, text=text).get("same") is True


class Scratch:
    """a directory for one case, removed afterwards"""

    def __init__(self, base, n):
        self.d = os.path.join(base, "c%d" % n)
        os.mkdir(self.d)
        os.chown(self.d, NOBODY, NOBODY)
        self.dir("home")

    def path(self, *p):
        return os.path.join(self.d, *p)

    def own(self, p):
        os.chown(p, NOBODY, NOBODY)

    def dir(self, *p):
        q = self.d
        for x in os.path.join(*p).split("/"):
            q = os.path.join(q, x)
            if not os.path.isdir(q):
                os.mkdir(q)
                self.own(q)
        return q

    def write(self, p, data, stamp=True):
        """pages are written with one and the same time: only what they hold tells them apart"""
        if os.path.dirname(p):
            self.dir(os.path.dirname(p))
        q = self.path(p)
        with open(q, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        self.own(q)
        if stamp:
            os.utime(q, (1600000000, 1600000000))

    def read(self, p):
        try:
            with open(self.path(p), "rb") as f:
                return f.read()
        except (FileNotFoundError, NotADirectoryError):
            return None

    def files(self, p=""):
        """every file below, with what it holds; directories end with a slash"""
        out = {}
        top = self.path(p) if p else self.d
        for d, ds, fs in os.walk(top):
            r = os.path.relpath(d, top)
            r = "" if r == "." else r + "/"
            for f in fs:
                q = os.path.join(d, f)
                out[r + f] = ("link", os.readlink(q)) if os.path.islink(q) else open(q, "rb").read()
            for x in ds:
                out[r + x + "/"] = None
        return out

    def run(self, *args, exe=None, limit=None, signalled=False, cwd=None, timeout=60):
        """the tool, as a user who owns this directory only; limit: the size a file may have"""
        def prepare():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if signalled else signal.SIG_IGN)
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        e = dict(HOME=self.path("home"), PATH="/nonexistent", LANG="C.UTF-8", VWSEG="v1/v 2")
        p = subprocess.Popen([exe or os.path.join(os.path.dirname(self.d), "vimwiki")] + [str(a) for a in args],
                             cwd=cwd or self.d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             preexec_fn=prepare, restore_signals=False)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Diff(what="does not end", args=list(args), after=timeout)
        if p.returncode < 0 and not signalled:
            raise Diff(what="crashes", args=list(args), signal=-p.returncode, stderr=clip(err.decode(errors="replace")))
        return p.returncode, out, err.decode(errors="replace")

    def close(self):
        for d, ds, _ in os.walk(self.d):
            for x in ds:
                q = os.path.join(d, x)
                if not os.path.islink(q):
                    os.chmod(q, 0o755)
        shutil.rmtree(self.d)


def quoted(s):
    """a TOML string"""
    out = ""
    for c in s:
        out += "\\" + c if c in '"\\' else c if c >= " " and c != "\x7f" else "\\u%04X" % ord(c)
    return '"%s"' % out


def toml(config):
    """the configuration file for the value the library is given"""
    out = ""
    for k, v in config.items():
        if k != "wikis":
            out += "[%s]\n" % k + "".join("%s = %s\n" % (a, quoted(b) if isinstance(b, str) else json.dumps(b)) for a, b in v.items())
    for w in config.get("wikis", []):
        out += "[[wikis]]\n" + "".join("%s = %s\n" % (a, quoted(b)) for a, b in w.items())
    return out


TEMPLATE = "<!-- %title% | %root_path% | %css% -->\n%content%\n<!-- end -->"


# --------------------------------------------------------------------------
# the cache

# alike in length, alike in all but a place, rich, empty
CACHE_TEXTS = [
    "= A =\n\nsee [[b]] and [[/d/a|x]] *one*\n\n- [ ] u\n- [X] v\n",
    "= A =\n\nsee [[b]] and [[/d/a|x]] *two*\n\n- [ ] u\n- [X] v\n",
    "%title T\n\n| a | b |\n|---|---|\n| `c` | [[wiki1:b]] |\n\n  1. é\n     * 漢 {{u.png}}\n\nterm:: def\n\n{{{rust\nfn a() {}\n}}}\n",
    "",
    "= A =\n\nsee [[b]] and [[/d/a|x]] *one* \n\n- [ ] u\n- [X] v\n",
]
BAD = {"empty": lambda e: b"", "half": lambda e: e[:len(e) // 2], "junk": lambda e: b"\xff\x00\xfe{" + e[3:],
       "more": lambda e: e + b"\n]", "shape": lambda e: b'{"elements": 3}', "locked": lambda e: e}
STRAYS = ["0" * 40, "x.tmp", "sub/" + "1" * 40]


def sha(t):
    return hashlib.sha1(t.encode()).hexdigest()


def cache_config(s):
    return {"template": {"text": TEMPLATE},
            "wikis": [dict(path=s.path("w0"), path_html=s.path("h0")),
                      dict(path=s.path("w1"), path_html=s.path("h1"), name="w one")]}


def cache_place(p):
    return ("w1/%s.wiki" % p, "h1/%s.html" % p, 1) if p == "b" else ("w0/%s.wiki" % p, "h0/%s.html" % p, 0)


ENTRY = {}      # of every text, the entry the tool writes for it when nothing else is there


def cache_start(lib, s):
    s.dir("w1")
    for n, t in enumerate(CACHE_TEXTS):
        s.write("w0/%d.wiki" % n, t)
    s.write("c.toml", toml(cache_config(s)))
    rc, _, err = s.run("-c", s.path("c.toml"), "--cache", s.path("cache"), "convert")
    got = s.files("cache") if os.path.isdir(s.path("cache")) else {}
    if rc != 0:
        raise Diff(what="the first run fails", exit=rc, stderr=clip(err))
    for t in CACHE_TEXTS:
        e = got.get(sha(t))
        if e is None or not lib.is_page(e, t):
            raise Diff(what="the first run leaves no entry for", text=t, entry=None if e is None else clip(e.decode(errors="replace")))
        ENTRY[t] = e


def cache_case(lib, s, c, tags):
    texts = CACHE_TEXTS[:c["T"]]
    conf = cache_config(s)
    s.write("c.toml", toml(conf))
    s.dir("w0/d")
    s.dir("w1")
    now = {}
    for n, p in ((1, "a"), (2, "b")):
        s.write(cache_place(p)[0], texts[n - 1])
        now[p] = texts[n - 1]
    biggest = max([len(lib.html(conf, s.path("w0/d/a.wiki"), 0, t).encode()) for t in texts] + [1]) + 200

    def entry(t):
        return "cache/" + sha(texts[t - 1])
    for step, a in enumerate(c["h"]):
        k = a[0]
        if k == "warm":
            s.dir("cache")
            for t in texts:
                s.write("cache/" + sha(t), ENTRY[t])
        elif k == "write":
            s.write(cache_place(a[1])[0], texts[a[2] - 1])
            now[a[1]] = texts[a[2] - 1]
        elif k == "delete":
            os.remove(s.path(cache_place(a[1])[0]))
            now.pop(a[1])
        elif k == "move":
            os.rename(s.path(cache_place(a[1])[0]), s.path(cache_place(a[2])[0]))
            now[a[2]] = now.pop(a[1])
        elif k == "harm":
            e = entry(a[1])
            if a[2] == "dir":
                if os.path.exists(s.path(e)):
                    os.remove(s.path(e))
                s.dir(e)
            else:
                if os.path.exists(s.path(e)):
                    os.remove(s.path(e))
                s.write(e, BAD[a[2]](ENTRY[texts[a[1] - 1]]))
                if a[2] == "locked":
                    os.chmod(s.path(e), 0)
        elif k == "lose":
            e = s.path(entry(a[1]))
            if os.path.isdir(e):
                os.rmdir(e)
            elif os.path.exists(e):
                os.remove(e)
        elif k == "stray":
            for x in STRAYS:
                s.write("cache/" + x, ENTRY[texts[0]])
        elif k == "wipe":
            shutil.rmtree(s.path("cache"))
        elif k == "run":
            tags[a[1]] = tags.get(a[1], 0) + 1
            cache_run(lib, s, texts, conf, a[1], a[2], now, biggest, step)


def cache_run(lib, s, texts, conf, r, want, now, biggest, step):
    args = {"only0": ["--include", "0"], "only1": ["--include", "1"], "off1": ["--include", "1"], "keep1": ["--include", "w one"]}.get(r, [])
    args += ["-c", s.path("c.toml"), "--cache", s.path("cache")]
    if r in ("keep", "keep1"):
        args.append("--no-prune-cache")
    if r in ("off", "off1", "look"):
        args.append("--no-cache")
    args += ["inspect", "$"] if r in ("inspect", "look") else ["convert"]
    aside = None
    if r in ("off", "off1", "look") and os.path.isdir(s.path("cache")):
        # every entry is the page of another text: were they read, it would show
        aside = s.path("aside")
        os.rename(s.path("cache"), aside)
        for n, t in enumerate(texts):
            s.write("cache/" + sha(t), ENTRY[CACHE_TEXTS[(n + 1) % 3]])
        s.write("cache/" + STRAYS[0], b"x")
    before = s.files("cache") if os.path.isdir(s.path("cache")) else None
    pages = {p: s.read(cache_place(p)[0]) for p in now}
    if r == "shut":
        for d, _, _ in list(os.walk(s.path("cache"))):
            os.chmod(d, 0o555)
    # the output of earlier runs, as it should stay where nothing is written
    rc, out, err = s.run(*args, limit=biggest if r in ("killed", "full") else None, signalled=r == "killed")
    if r == "shut":
        for d, _, _ in list(os.walk(s.path("cache"))):
            os.chmod(d, 0o755)
    where = dict(step=step, run=r, exit=rc)
    if rc != 0 and r != "killed":
        raise Diff(what="the run fails", stderr=clip(err), **where)
    # what must not change
    if r in ("off", "off1", "look"):
        after = s.files("cache") if os.path.isdir(s.path("cache")) else None
        if after != before:
            raise Diff(what="a run without cache changes the cache directory", before=sorted(before or []), after=after and sorted(after), **where)
    if aside:
        shutil.rmtree(s.path("cache"))
        os.rename(aside, s.path("cache"))
    for p, t in pages.items():
        if s.read(cache_place(p)[0]) != t:
            raise Diff(what="a page is changed", page=p, **where)
    # outputs
    seen = {}
    for p, n in want["out"].items():
        src, dst, w = cache_place(p)
        seen[dst] = n
        got = s.read(dst)
        if n == 0 and got is not None:
            raise Diff(what="an output that nothing asks for", file=dst, **where)
        if 0 < n <= len(texts):
            exp = lib.html(conf, s.path(src), w, texts[n - 1]).encode()
            if got != exp:
                raise Diff(what="the output of %s is not that of its text" % p, text=texts[n - 1], expected=clip(exp.decode()),
                           actual=got and clip(got.decode(errors="replace")), **where)
    for h in ("h0", "h1"):
        for f, v in (s.files(h) if os.path.isdir(s.path(h)) else {}).items():
            if v is not None and h + "/" + f not in seen:
                raise Diff(what="a file that no page has", file=h + "/" + f, **where)
    # the cache
    if os.path.isdir(s.path("cache")) != want["dir"]:
        raise Diff(what="the cache directory is%s there" % (" not" if want["dir"] else ""), **where)
    names = set(os.listdir(s.path("cache"))) if want["dir"] else set()
    for n, t in enumerate(texts):
        e, x = s.path("cache", sha(t)), want["cache"][n]
        if x == "none" and sha(t) in names:
            raise Diff(what="an entry that should not be there", text=t, **where)
        if x == "good":
            if not os.path.isfile(e):
                raise Diff(what="no entry for", text=t, **where)
            data = open(e, "rb").read()
            if not lib.is_page(data, t):
                raise Diff(what="an entry does not hold the page of its text", text=t, entry=clip(data.decode(errors="replace")), **where)
        if x == "bad" and r not in ("off", "off1", "look") and sha(t) not in names:
            raise Diff(what="an entry was removed that should have been kept", text=t, **where)
        names.discard(sha(t))
    for x in STRAYS:
        there = os.path.exists(s.path("cache", x))
        if want["stray"] in ("yes", "no") and there != (want["stray"] == "yes"):
            raise Diff(what="another file in the cache directory is%s there" % ("" if there else " not"), file=x, **where)
    names -= {x.split("/")[0] for x in STRAYS}
    if names and r not in ("killed", "full", "shut"):
        raise Diff(what="other files in the cache directory", files=sorted(names), **where)
    if r in ("inspect", "look"):
        inspected(lib, s, conf, out, {cache_place(p)[0]: (cache_place(p)[2], t) for p, t in now.items()}, where)


def inspected(lib, s, conf, out, pages, where):
    """the parsed wikis as the tool prints them; pages: path -> wiki and text"""
    try:
        got = json.loads(out.decode())
    except ValueError:
        raise Diff(what="not JSON", out=clip(out.decode(errors="replace")), **where)
    wikis = got[0]["wikis"]
    seen = set()
    for w in wikis:
        for f in w["files"]:
            rel = os.path.relpath(f["path"], s.d)
            if rel not in pages or pages[rel][0] != w["index"]:
                raise Diff(what="a page in a wiki that does not have it", page=rel, wiki=w["index"], **where)
            if rel in seen:
                raise Diff(what="a page twice", page=rel, **where)
            seen.add(rel)
            if lib.ask(op="same_value", json=f["data"], text=pages[rel][1]).get("same") is not True:
                raise Diff(what="not the page of its text", page=rel, text=pages[rel][1], **where)
    for rel in pages:
        if rel not in seen:
            raise Diff(what="a page is missing", page=rel, **where)


# --------------------------------------------------------------------------
# one command over a tree of files

def real(x):
    return x.replace("@", "é")


def rel(p):
    """a path of the specification"""
    return real("/".join("".join(c) for c in p))


def tree_case(lib, s, c, wikis):
    """the files, the configuration and what the library is told of it"""
    texts = {}
    more = "".join(" [[wiki%d:p#a]]" % k for k in range(len(c["wikis"]))) + \
           "".join(" [[wn.%s:q/]]" % w["name"] for w in wikis if w.get("name"))
    for d in ("w/d", "w/in/d", "v/h", "x/s", "v v", "empty", "w/dir.wiki"):
        s.dir(d)
    os.symlink("x", s.path("ln"))
    for n, (name, there) in enumerate(c["tree"]):
        name = real(name)
        if not there:
            continue
        t = "%%title B%d %s\n\n= A&%d =\n\n[[o]] [[/r|x]] [[d/]] [[../u]] {{i.png}}%s\n\n- [ ] *a*\n    - b\n" % (n, name, n, more)
        texts[n + 1] = t
        s.write(name, t)
    conf = {"template": {"text": TEMPLATE}, "wikis": wikis}
    s.write("c.toml", toml(dict(conf, wikis=wikis[:c["own"]])))
    return texts, conf


def config_wikis(s, c):
    out = []
    for w in c["wikis"]:
        x = dict(path=s.path(rel(w["path"])).rstrip("/"), path_html=s.path(rel(w["html"])))
        if w["name"]:
            x["name"] = real("".join(w["name"]))
        if "".join(w["ext"]) != "wiki":
            x["ext"] = "".join(w["ext"])
        out.append(x)
    return out


def common(s, c):
    # (a filter takes all values up to the next option)
    inc = c["inc"]
    inc = ["--include"] + inc if len(inc) > 1 and len(c["ext"]) % 2 else [x for i in inc for x in ("--include", i)]
    return inc + ["-c", s.path("c.toml"), "--cache", s.path("cache")]


def given(s, c, k):
    """as a path relative to the current directory, or not"""
    return c["ext"][k] if k % 2 == 0 else s.path(c["ext"][k])


def same_tree(before, after, but=()):
    for p in sorted(set(before) | set(after)):
        if p in but or p == "cache/" or p.startswith("cache/"):
            continue
        if p.endswith("/") and any(b.startswith(p) for b in but):
            continue
        if p not in after:
            raise Diff(what="a file is gone", file=p)
        if p not in before:
            raise Diff(what="a file that nothing asks for", file=p)
        if before[p] != after[p]:
            raise Diff(what="a file is changed", file=p, after=clip(str(after[p])))


def printed(out, docs):
    """standard output as these documents in some order, each with the end of a line"""
    left = sorted(docs)
    rest = out.decode(errors="replace")
    while left:
        k = next((k for k, d in enumerate(left) if rest.startswith(d + "\n")), None)
        if k is None:
            raise Diff(what="standard output", expected_one_of=[clip(d, 300) for d in left[:4]], left=len(left), actual=clip(rest))
        rest = rest[len(left[k]) + 1:]
        left.pop(k)
    if rest:
        raise Diff(what="more on standard output than asked for", rest=clip(rest))


def convert_case(lib, s, c, tags):
    wikis = config_wikis(s, c)
    texts, conf = tree_case(lib, s, c, wikis)
    before = s.files()
    args = common(s, c)
    opts = ["--stdout"] * ("stdout" in c["flags"]) + ["--include-vimwiki-css"] * ("css" in c["flags"])
    rc, out, err = s.run(*args, "convert", *opts, *[given(s, c, k) for k in range(len(c["ext"]))])
    after = s.files()
    if c["missing"]:
        tags["missing"] = 1
        if rc == 0:
            raise Diff(what="no failing exit for a path that is not there", stderr=clip(err))
        return same_tree(before, after)
    if rc != 0:
        raise Diff(what="the command fails", exit=rc, stderr=clip(err))
    htmls = {}
    docs = []
    for f, w, dst in c["docs"]:
        h = lib.html(conf, s.path(real(c["tree"][f - 1][0])), w - 1, texts[f])
        docs.append(h)
        htmls.setdefault(rel(dst), set()).add(h.encode())
    for k in ("stdout" if "stdout" in c["flags"] else "files", "nested" if len({w for _, w, _ in c["docs"]}) > 1 else "single",
              "paths" if c["ext"] else "wikis", "include" if c["inc"] else "all", "none" if not docs else "some"):
        tags[k] = tags.get(k, 0) + 1
    if "stdout" in c["flags"]:
        same_tree(before, after)
        return printed(out, docs)
    if out:
        raise Diff(what="standard output", actual=clip(out.decode(errors="replace")))
    for p, hs in htmls.items():
        if after.get(p) not in hs:
            raise Diff(what="an output", file=p, expected=clip(sorted(hs)[0].decode()), actual=after.get(p) and clip(after[p].decode(errors="replace")))
    styles = {rel(p) for p in c["styles"]}
    for p in styles:
        tags["css"] = tags.get("css", 0) + 1
        if after.get(p) != STYLE:
            raise Diff(what="the style file", file=p, actual=after.get(p) and clip(after[p].decode(errors="replace"), 200))
    same_tree(before, after, set(htmls) | styles)


STYLE = None


def convert_start(lib, s):
    """the style file the tool has"""
    global STYLE
    s.write("w/a.wiki", "a")
    s.dir("h")
    s.write("c.toml", toml({"wikis": [dict(path=s.path("w"), path_html=s.path("h"))]}))
    rc, _, err = s.run("-c", s.path("c.toml"), "--no-cache", "convert", "--include-vimwiki-css")
    STYLE = s.read("h/style.css")
    if rc != 0 or not STYLE or b"{" not in STYLE:
        raise Diff(what="no style file", exit=rc, stderr=clip(err), got=STYLE and clip(STYLE.decode(errors="replace")))


def inspect_case(lib, s, c, tags):
    wikis = config_wikis(s, c)
    texts, conf = tree_case(lib, s, c, wikis)
    before = s.files()
    q = c["query"]
    tofile = ["-o", s.path("found.json")] if "out" in c["flags"] else []
    rc, out, err = s.run(*common(s, c), "inspect", *tofile, q, *[given(s, c, k) for k in range(len(c["ext"]))])
    after = s.files()
    if c["missing"]:
        tags["missing"] = 1
        if rc == 0:
            raise Diff(what="no failing exit for a path that is not there", stderr=clip(err))
        return same_tree(before, after)
    if rc != 0:
        raise Diff(what="the command fails", exit=rc, stderr=clip(err))
    same_tree(before, after, {"found.json"} if tofile else ())
    if tofile:
        tags["to a file"] = tags.get("to a file", 0) + 1
        if out:
            raise Diff(what="standard output", actual=clip(out.decode(errors="replace")))
        out = after.get("found.json") or b""
    try:
        got = json.loads(out.decode())
    except ValueError:
        raise Diff(what="not JSON", out=clip(out.decode(errors="replace")))
    tags[q] = tags.get(q, 0) + 1
    parsed = c["parsed"]
    files = [[s.path(real(c["tree"][f - 1][0])) for f in w["files"]] for w in parsed]
    text = {s.path(real(c["tree"][f - 1][0])): texts[f] for w in parsed for f in w["files"]}
    name = [real("".join(w["name"])) or None for w in parsed]
    path = [s.path(rel(w["path"])).rstrip("/") for w in parsed]

    def same(e, a):
        if e != a:
            raise Diff(what="what the query selects", query=q, expected=clip(json.dumps(e)), actual=clip(json.dumps(a)))

    def same_page(p, data):
        if lib.ask(op="same_value", json=data, text=text[p]).get("same") is not True:
            raise Diff(what="not the page of its text", query=q, page=p, text=text[p], actual=clip(json.dumps(data)))
    if q == "$":
        same(len(got), 1)
        same([(w["index"], w["name"], w["path"], sorted(f["path"] for f in w["files"])) for w in got[0]["wikis"]],
             [(w["index"], name[k], path[k], sorted(files[k])) for k, w in enumerate(parsed)])
        for w in got[0]["wikis"]:
            for f in w["files"]:
                same(f["checksum"], sha(text[f["path"]]))
                same_page(f["path"], f["data"])
    elif q == "$.wikis[*].index":
        same([w["index"] for w in parsed], got)
    elif q == "$.wikis[*].name":
        same(name, got)
    elif q == "$.wikis[*].path":
        same(path, got)
    elif q == "$..checksum":
        same(sorted(sha(text[p]) for ps in files for p in ps), sorted(got))
    elif q == "$.wikis[*].files[*].path":
        k = 0
        for ps in files:
            same(sorted(ps), sorted(got[k:k + len(ps)]))
            k += len(ps)
        same(k, len(got))
    elif q == "$.wikis[0].files[*].data":
        ps = list(files[0]) if files else []
        same(len(ps), len(got))
        for d in got:
            k = next((p for p in ps if lib.ask(op="same_value", json=d, text=text[p]).get("same") is True), None)
            if k is None:
                raise Diff(what="the page of no text", query=q, actual=clip(json.dumps(d)))
            ps.remove(k)
    elif q == "$.nothing":
        if [x for x in got if x is not None]:
            same([], got)
    elif q.startswith("$.wikis[?"):
        same([name[k] for k, w in enumerate(parsed) if w["index"] == 1], got)
    else:
        raise ValueError(q)


FORMATS = [None, {"list": {"prefer_indented": False}}, {"block_quote": {"prefer_indented_blockquote": True}}]


def format_case(lib, s, c, tags):
    texts, _ = tree_case(lib, s, c, config_wikis(s, c))
    before = s.files()
    args = []
    for e in sorted(c["exts"]):
        args += ["--ext", e]
    if "inline" in c["flags"]:
        args += ["--inline" if len(args) else "-i"]
    new = {f: lib.ask(op="format", config={}, text=t)["text"] for f, t in texts.items()}
    for n in range(2 if "twice" in c["flags"] else 1):
        rc, out, err = s.run("format", *args, "--", *[given(s, c, k) for k in range(len(c["ext"]))])
        if (rc != 0) != c["missing"]:
            raise Diff(what="the exit status", exit=rc, missing=c["missing"], stderr=clip(err))
        after = s.files()
        names = {real(c["tree"][f - 1][0]): f for f in c["formatted"]}
        if "inline" in c["flags"]:
            if out:
                raise Diff(what="standard output", actual=clip(out.decode(errors="replace")))
            for p, f in names.items():
                if after.get(p) != new[f].encode():
                    raise Diff(what="a file is not formatted", file=p, expected=new[f], actual=after.get(p) and clip(after[p].decode(errors="replace")))
            same_tree(before, after, set(names))
            for p in names:
                st = os.stat(s.path(p))
                if st.st_uid != NOBODY:
                    raise Diff(what="the file has another owner", file=p)
        else:
            same_tree(before, after)
            printed(out, [new[f] for f in c["formatted"]])
        for k in ("inline" if "inline" in c["flags"] else "print", "missing" if c["missing"] else "there",
                  "some" if names else "none", "again" if n else "once"):
            tags[k] = tags.get(k, 0) + 1


# --------------------------------------------------------------------------
# many pages, converted without and then from the cache

NAMES = {"u2": "é", "u3": "漢", "u4": "😀", "us": "\u00a0", "uw": "\u3000", "uc": "\u0301", "ul": "\u2028", "cl": "\u0085",
         "vt": "\x0b", "ff": "\x0c", "nul": "\x00", "bs": "\\"}


def warm_text(c):
    return "".join(NAMES.get(x, x) for x in c["t"])


def warm_case(lib, s, cs, tags):
    wikis = [dict(path=s.path("w0"), path_html=s.path("h0"), name="w"), dict(path=s.path("w1"), path_html=s.path("h1"))]
    conf = {"template": {"text": TEMPLATE}, "wikis": wikis}
    s.write("c.toml", toml(conf))
    s.dir("w1")
    s.dir("w0")
    want = {}
    for n, c in enumerate(cs):
        t = warm_text(c)
        p = "w%d/p%d.wiki" % (n % 2, n)
        a = lib.ask(op="html", config=conf, page=s.path(p), wiki=n % 2, text=t)
        if "html" in a:
            s.write(p, t)
            want["h%d/p%d.html" % (n % 2, n)] = (n, t, a["html"].encode())
        else:
            tags["refused"] = tags.get("refused", 0) + 1
    for r in ("cold", "warm"):
        rc, _, err = s.run("-c", s.path("c.toml"), "--cache", s.path("cache"), "convert")
        if rc != 0:
            raise Diff(what="the run fails", run=r, exit=rc, stderr=clip(err))
        for p, (n, t, h) in want.items():
            got = s.read(p)
            if got != h:
                raise Diff(what="the output is not that of the text", case=n, run=r, text=t, expected=clip(h.decode()), actual=got and clip(got.decode(errors="replace")))
            tags[r] = tags.get(r, 0) + 1
            os.remove(s.path(p))
    if set(os.listdir(s.path("cache"))) != {sha(t) for _, t, _ in want.values()}:
        raise Diff(what="the entries of the cache", expected=len(want), actual=sorted(os.listdir(s.path("cache"))))


def nothing(lib, s):
    pass


OPS = dict(warm=(nothing, warm_case), convert=(convert_start, convert_case), inspect=(nothing, inspect_case), format=(nothing, format_case),
           cache=(cache_start, cache_case))


def main():
    op = sys.argv[1]
    opts = dict(a.split("=", 1) for a in sys.argv[2:])
    start, one = OPS[op]
    lines, seen, total = [], set(), 0
    lib = Library()
    base = tempfile.mkdtemp(prefix="vwcli.")
    os.chmod(base, 0o755)
    fails, tags, samples = [], {}, []
    lock = threading.Lock()
    counter, more, batch = [0], [], []

    def go(line):
        c = [decode(x) for x in line] if op == "warm" else decode(line)
        with lock:
            counter[0] += 1
            n = counter[0]
        s = Scratch(base, n)
        mine = {}
        try:
            one(lib, s, c, mine)
            diff = None
        except Diff as e:
            diff = json.loads(json.dumps(e.diff, default=str).replace(s.d, "SCRATCH"))
        except (KeyError, IndexError, TypeError, AttributeError) as e:
            diff = dict(what="of another shape than it should be", error=repr(e), at=traceback.format_exc()[-300:])
        finally:
            s.close()
        with lock:
            for k, v in mine.items():
                tags[k] = tags.get(k, 0) + v
            if diff:
                if op == "warm" and len(line) > 1:
                    # which of them
                    again = [line[diff["case"]]] if "case" in diff else line
                    more.extend([x] for x in again)
                elif len(fails) < 200:
                    fails.append(dict(len=len(str(line)), case=brief(op, c), diff=diff, line=line[0].strip() if op == "warm" else line.strip()))
            elif len(samples) < 6 and n.bit_count() == 1 and n > 8:
                samples.append(brief(op, c))
    try:
        shutil.copy(os.path.join(TARGET, "vimwiki"), os.path.join(base, "vimwiki"))
        os.chmod(os.path.join(base, "vimwiki"), 0o755)
        first = Scratch(base, 0)
        bad = None
        try:
            start(lib, first)
        except Diff as e:
            bad = json.loads(json.dumps(e.diff, default=str).replace(first.d, "SCRATCH"))
        first.close()
        with ThreadPoolExecutor(int(opts.get("threads", 8))) as pool:
            for line in sys.stdin.buffer:
                line = line.decode("utf-8", "replace")
                if not line.startswith('<<"E"'):
                    sys.stderr.write(line)
                    continue
                total += 1
                h = hashlib.sha1(line.encode()).digest()
                if h in seen:
                    continue
                seen.add(h)
                if bad:
                    if len(fails) < 1:
                        fails.append(dict(len=0, case="a first run with an empty cache", diff=bad, line=line.strip()))
                    continue
                if op == "warm":
                    batch.append(line)
                    if len(batch) == 40:
                        lines.append(pool.submit(go, batch))
                        batch = []
                else:
                    lines.append(pool.submit(go, line))
            if batch:
                lines.append(pool.submit(go, batch))
            for f in lines:
                f.result()
            for x in more[:100]:
                go(x)
    finally:
        lib.p.stdin.close()
        lib.p.wait()
        shutil.rmtree(base)
    fails.sort(key=lambda f: f["len"])
    print(json.dumps(dict(cases=total, distinct=len(seen), tags=tags, samples=samples, nfail=len(fails), failures=fails[:40])))


def brief(op, c):
    if op == "cache":
        return [x[:2] if x[0] == "run" else x for x in c["h"]]
    if op == "warm":
        return warm_text(c[0])
    if "tree" in c:
        d = {k: v for k, v in c.items() if k not in ("tree", "docs", "styles", "parsed", "formatted", "wikis")}
        d["wikis"] = [[rel(w["path"]), rel(w["html"]), "".join(w["name"]), "".join(w["ext"])] for w in c["wikis"]]
        d["not there"] = [n for n, there in c["tree"] if not there]
        return d
    return c


if __name__ == "__main__":
    main()
