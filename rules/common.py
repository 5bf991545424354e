"""Shared plumbing of the checks: building the facts from /repo's current tree, compile-fail
witnesses, the verdict protocol (VIOLATION / KNOWN-FINDING lines, evidence files)."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TMP = None


def tmpdir():
    global TMP
    if TMP is None:
        TMP = tempfile.mkdtemp(prefix="vp-check-")
        atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
    return TMP


class CheckError(Exception):
    """The check could not do its job (neither pass nor violation)."""


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTC", "RUSTDOCFLAGS"):
            if k not in ("CARGO_HOME",):
                del e[k]
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def driver():
    """path of the facts extractor, building it when it is absent or older than its source"""
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(BUILD, "facts")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    try:
        os.makedirs(BUILD, exist_ok=True)
        tgt = os.path.join(BUILD, "facts.%d" % os.getpid())
    except OSError:
        out = tgt = os.path.join(tmpdir(), "facts")
    sysroot = run(["rustc", "+nightly", "--print", "sysroot"], env=env()).stdout.strip()
    r = run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tgt,
             "-C", "link-arg=-Wl,-rpath," + sysroot + "/lib"], env=env(), cwd=tmpdir())
    if r.returncode != 0:
        raise CheckError("cannot build the facts extractor:\n" + r.stderr[-3000:])
    if tgt != out:
        os.replace(tgt, out)
    return out


_facts = None


def facts_paths():
    """(generic facts, monomorphic facts) of /repo's current tree, extracted now"""
    global _facts
    if _facts:
        return _facts
    pre = os.environ.get("VP_FACTS")  # development only: reuse previously extracted facts
    if pre:
        _facts = (pre + "/f.json", pre + "/m.json")
        return _facts
    d = driver()
    t = tmpdir()
    probe = os.path.join(t, "probe")
    shutil.copytree(os.path.join(VERIF, "probe"), probe, ignore=shutil.ignore_patterns("target"))
    _repoint(os.path.join(probe, "Cargo.toml"))
    f, m = os.path.join(t, "f.json"), os.path.join(t, "m.json")
    r = run(["cargo", "+nightly", "check", "--offline", "--lib"], cwd=probe,
            env=env(RUSTC_WRAPPER=d, VP_OUT=f, VP_MONO_OUT=m,
                    CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false",
                    CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false",
                    CARGO_TARGET_DIR=os.path.join(t, "tgt")))
    if r.returncode != 0 or not os.path.exists(f) or not os.path.exists(m):
        raise CheckError("cannot extract facts from the current tree:\n" + r.stderr[-4000:])
    _facts = (f, m)
    return _facts


def _repoint(toml):
    if REPO != "/repo":
        s = open(toml).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(toml, "w").write(s)


def witness(name, src, features=(), deps="", edition="2021", alt=None):
    """Type-check one witness crate that uses the library as an external user would.

    Every line ending in `//~ CODE` must produce exactly a compiler error of that code; no other
    line may produce an error. Returns (n_expected, list of mismatch strings)."""
    t = os.path.join(tmpdir(), "w_" + name)
    os.makedirs(os.path.join(t, "src"))
    feat = ", features = [%s]" % ", ".join('"%s"' % f for f in features) if features else ""
    open(os.path.join(t, "Cargo.toml"), "w").write(
        '[package]\nname = "w_%s"\nversion = "0.0.0"\nedition = "%s"\n[dependencies]\n'
        'sherman = { path = "%s"%s }\n%s\n[workspace]\n' % (name, edition, REPO, feat, deps))
    open(os.path.join(t, "src", "lib.rs"), "w").write(src)
    lock = os.path.join(VERIF, "probe", "Cargo.lock")
    r = run(["cargo", "+nightly", "check", "--offline", "--lib", "--message-format=json"], cwd=t,
            env=env(CARGO_TARGET_DIR=os.path.join(tmpdir(), "wt_" + name)))
    want = {}
    lines = src.split("\n")
    for i, l in enumerate(lines, 1):
        mm = re.search(r"//~ (E\d+)\s*$", l)
        if mm:
            want[i] = mm.group(1)
    got = {}
    saw_lib = False
    for l in r.stdout.split("\n"):
        if not l.startswith("{"):
            continue
        j = json.loads(l)
        if j.get("reason") == "compiler-artifact" and j["target"]["name"] == "sherman":
            saw_lib = True
        if j.get("reason") != "compiler-message":
            continue
        if "w_" + name not in j["target"]["name"]:
            if j["message"]["level"] == "error":
                raise CheckError("the library does not compile: " + j["message"]["rendered"][:2000])
            continue
        msg = j["message"]
        if msg["level"] != "error":
            continue
        code = (msg.get("code") or {}).get("code")
        prim = [s for s in msg["spans"] if s["is_primary"]]
        if not prim:
            if code is None:
                continue  # "aborting due to .. errors"
            got.setdefault(0, []).append((code, msg["message"]))
            continue
        ln = None
        for s in msg["spans"]:
            q = s
            while q:
                if q["file_name"].endswith("src/lib.rs") and "w_" + name in j["manifest_path"] \
                        and not q["file_name"].startswith("/"):
                    if s["is_primary"] or ln is None:
                        ln = q["line_start"]
                q = (q.get("expansion") or {}).get("span")
        if ln is None:
            ln = prim[0]["line_start"] if not prim[0]["file_name"].startswith("/") else 0
        # an error spanning a marked line belongs to it
        got.setdefault(ln, []).append((code, msg["message"]))
    if not saw_lib:
        raise CheckError("witness crate was not built: " + r.stderr[-2000:])
    bad = []
    for i, code in want.items():
        cs = {c for c, _ in got.get(i, [])}
        if not cs & (alt.get(i, {code}) if alt else {code}):
            bad.append(("accepts", i, lines[i - 1].strip(), code, got.get(i, [])))
    for i, es in got.items():
        if i not in want:
            bad.append(("rejects", i, lines[i - 1].strip() if i else "?", es[0][0], es))
    return len(want), bad


# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, pid, technique):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.viol = []  # (key, text)
        self.counts = {}
        self.samples = []
        self.technique = technique
        self.assumptions = []
        self.explanation = ""
        self.floors = []

    def violation(self, key, text):
        """key: stable identification without line numbers; text: the diagnosis"""
        if key not in [k for k, _ in self.viol]:
            self.viol.append((key, text))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        """fail closed when fewer than n instances of a rule were found"""
        self.floors.append((name, n))

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)

    def known(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3).strip()
        return out

    def finish(self):
        for name, n in self.floors:
            if self.counts.get(name, 0) < n:
                raise CheckError("rule found only %d instances of '%s' (expected at least %d): the "
                                 "anchors moved, nothing can be concluded" % (self.counts.get(name, 0), name, n))
        known = self.known()
        new = [(k, t) for k, t in self.viol if k not in known]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": dict(self.counts, explanation=self.explanation, rule=self.technique,
                             samples=self.samples,
                             findings=[{"key": k, "report": t, "known": k in known} for k, t in self.viol]),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k, t in self.viol:
            if k in known:
                print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, known[k], k))
        if new:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violation.txt")
            with open(rp, "w") as fh:
                for k, t in new:
                    fh.write("[%s] %s\n\n" % (k, t))
            for k, t in new:
                print("%s: [%s] %s" % (self.pid, k, t))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: ok (%s) %.1fs" % (self.pid, ", ".join("%s=%s" % kv for kv in self.counts.items()), time.time() - self.t0))
        return 0
