"""Build plumbing: the rustc driver, the macro crates of the current /repo tree, and driver runs over corpus crates."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FXDEV_REPO", "/repo")    # the override serves tools/tryseed.py only
BUILD = os.environ.get("FXDEV_BUILD", os.path.join(VERIF, "build"))
CARGO_HOME_BIN = "/root/.cargo/bin"
ENV = dict(os.environ)
ENV["PATH"] = CARGO_HOME_BIN + ":" + ENV.get("PATH", "")
ENV.setdefault("HOME", "/root")
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"
for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)


class Broken(Exception):
    """The machinery itself could not run (not a verdict about fieldx)."""


class TreeError(Exception):
    """The current /repo tree does not compile in a configuration where it must."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, **kw):
    kw.setdefault("env", ENV)
    kw.setdefault("capture_output", True)
    kw.setdefault("text", True)
    return subprocess.run(cmd, **kw)


_SYSROOT = None


def sysroot():
    global _SYSROOT
    if _SYSROOT is None:
        r = run(["rustc", "+nightly", "--print", "sysroot"])
        if r.returncode:
            raise Broken("rustc +nightly: " + r.stderr)
        _SYSROOT = r.stdout.strip()
    return _SYSROOT


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name)

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tree_hash(paths, suffixes=(".rs", ".toml", ".py", ".lock")):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs) if f.endswith(suffixes)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def driver():
    """Compile the analysis driver if its source changed."""
    src = os.path.join(VERIF, "driver")
    out = os.path.join(BUILD, "fxdriver")
    stamp = out + ".stamp"
    h = tree_hash([src]) + sysroot()
    with Lock("driver.lock"):
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
            return out
        log("building the analysis driver")
        r = run(["rustc", "+nightly", "--edition", "2024", "-C", "opt-level=2", "-A", "warnings", "main.rs", "-o", out], cwd=src)
        if r.returncode:
            raise Broken("driver does not build:\n" + r.stderr[-4000:])
        open(stamp, "w").write(h)
    return out


CRATES = ("fieldx_aux", "fieldx_derive", "fieldx_derive_support")


def repo_hash():
    return tree_hash([os.path.join(REPO, c) for c in ("fieldx/src", "fieldx/Cargo.toml", "Cargo.toml") ] + [os.path.join(REPO, c, x) for c in CRATES for x in ("src", "Cargo.toml")] + [os.path.join(VERIF, "harness")])


def mirror():
    """A content-stable mirror of the macro crates: files are rewritten only when their content differs, so that cargo's
    time stamps stay meaningful across sandboxes."""
    dst_root = os.path.join(BUILD, "mirror")
    want = set()
    for c in CRATES + ("fieldx",):
        for d, ds, fs in os.walk(os.path.join(REPO, c)):
            ds[:] = [x for x in ds if x not in ("target", ".git", "tests", "examples", "benches")]
            for f in fs:
                if not (f.endswith(".rs") or f.endswith(".toml")):
                    continue
                s = os.path.join(d, f)
                t = os.path.join(dst_root, os.path.relpath(s, REPO))
                want.add(t)
                _sync(s, t)
    for f in ("Cargo.toml",):
        t = os.path.join(dst_root, f)
        want.add(t)
        _sync(os.path.join(REPO, f), t)
    for d, ds, fs in os.walk(dst_root):
        for f in fs:
            p = os.path.join(d, f)
            if p not in want and (p.endswith(".rs") or p.endswith(".toml")):
                os.unlink(p)
    return dst_root


def _sync(s, t):
    data = open(s, "rb").read()
    try:
        if open(t, "rb").read() == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(t), exist_ok=True)
    with open(t, "wb") as f:
        f.write(data)


_ALL = {}
AUX = ("darling", "syn", "getset", "quote", "proc_macro2", "fieldx_derive_support")


def aux_flags(features):
    """Extern flags for compiling fieldx_aux's own sources: one consistent choice among the built variants of each crate."""
    flags = deps(features)
    arts = _ALL["+".join(sorted(features)) or "none"]
    dirs = [flags[i:i + 2] for i in range(0, len(flags), 2) if flags[i] == "-L"]
    test = os.path.join(BUILD, "auxtest.rs")
    with open(test, "w") as f:
        f.write("use quote::ToTokens; pub fn f(x: &syn::Path) -> darling::Error { darling::Error::unknown_field_path(x) } pub fn g(x: &syn::Path) -> proc_macro2::TokenStream { x.to_token_stream() } #[derive(darling::FromMeta)] pub struct A { p: Option<syn::Path> }\n")
    import itertools
    last = ""
    for combo in itertools.product(*[arts.get(n, []) for n in AUX]):
        ext = [x for n, p in zip(AUX, combo) for x in ("--extern", "%s=%s" % (n, p))]
        r = run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--cap-lints", "allow", "-o", os.path.join(BUILD, "auxtest.rmeta"), test] + ext + [x for d in dirs for x in d])
        if r.returncode == 0:
            return ext + [x for d in dirs for x in d]
        last = r.stderr
    raise Broken("no consistent set of crates to compile fieldx_aux with:\n" + last[-2000:])


def deps(features):
    """Build the macro crates (from the current tree) and third-party crates for a feature set; return extern flags."""
    key = "+".join(sorted(features)) or "none"
    with Lock("deps.lock"):
        mirror()
        hd = os.path.join(BUILD, "harness")
        for f in ("Cargo.toml", "Cargo.lock"):
            _sync(os.path.join(VERIF, "harness", "deps", f), os.path.join(hd, f))
        _sync(os.path.join(VERIF, "harness", "deps", "src", "lib.rs"), os.path.join(hd, "src", "lib.rs"))
        cmd = ["cargo", "+nightly", "build", "--offline", "--message-format=json", "--target-dir", os.path.join(BUILD, "deps")]
        if features:
            cmd += ["--features", ",".join(sorted(features))]
        env = dict(ENV)
        env["CARGO_PROFILE_DEV_DEBUG"] = "0"
        env["CARGO_INCREMENTAL"] = "0"
        r = run(cmd, cwd=hd, env=env)
    ext, dirs, errs = {}, [], []
    for line in r.stdout.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("reason") == "compiler-artifact":
            for f in j["filenames"]:
                if f.endswith((".rmeta", ".so")):
                    d = os.path.dirname(f)
                    if d not in dirs:
                        dirs.append(d)
                    n = j["target"]["name"].replace("-", "_")
                    _ALL.setdefault(key, {}).setdefault(n, []).append(f)
                    if n in ("fieldx_aux", "fieldx_derive", "once_cell", "thiserror", "parking_lot", "tokio", "async_trait", "serde"):
                        # the last artifact of a given name is the one for the target side (proc-macro side comes first)
                        ext.setdefault(n, []).append(f)
        elif j.get("reason") == "compiler-message" and j["message"].get("level") == "error":
            errs.append(j["message"].get("rendered", ""))
    if r.returncode:
        raise TreeError("fieldx macro crates do not build with features [%s]:\n%s\n%s" % (key, "\n".join(errs)[-6000:], r.stderr[-2000:]))
    flags = []
    for n, fs in ext.items():
        flags += ["--extern", "%s=%s" % (n, fs[-1])]
    for d in dirs:
        flags += ["-L", "dependency=" + d]
    return flags


def corpus_src():
    """Copy of the run-time crate's sources, to which specimen modules are attached."""
    return os.path.join(BUILD, "mirror", "fieldx", "src")


def strip_tests(text):
    return text


def write_crate(name, specs_text, features, extra_tail="", of="fieldx"):
    """Lay out a crate = current sources of the run-time (or another) crate + specimens; return its lib path."""
    src = os.path.join(BUILD, "mirror", of, "src")
    base = os.path.join(BUILD, "corpus", name)
    shutil.rmtree(base, ignore_errors=True)
    shutil.copytree(src, base)
    lib = os.path.join(base, "lib.rs")
    t = open(lib).read()
    t += "\nextern crate self as %s;\n" % of + "#[allow(warnings)]\n#[path = \"specs.rs\"]\npub mod specs;\n" + extra_tail
    open(lib, "w").write(t)
    open(os.path.join(base, "specs.rs"), "w").write(specs_text)
    return lib


def run_driver(name, lib, flags, features, facts_only=False, only="", timeout=600, scope="specs::", unroll=None):
    """Analyse one crate.  Returns (json or None, [error diagnostics])."""
    out = os.path.join(BUILD, "corpus", name + ".json")
    if os.path.exists(out):
        os.unlink(out)
    env = dict(ENV)
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    env["FXD_OUT"] = out
    env["FXD_SCOPE"] = scope
    if facts_only:
        env["FXD_FACTS_ONLY"] = "1"
    if only:
        env["FXD_ONLY"] = only
    if unroll:
        env["FXD_UNROLL"] = unroll
    cmd = [driver(), "--sysroot", sysroot(), "--edition", "2021", "--crate-type", "lib", "--crate-name", "fxcorpus", "--error-format=json", "--cap-lints", "allow", "-C", "overflow-checks=off"]
    for f in features:
        cmd += ["--cfg", 'feature="%s"' % f]
    cmd += flags + [lib, "-o", os.path.join(os.path.dirname(lib), "out.rmeta"), "--emit", "metadata"]
    try:
        r = run(cmd, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("driver timed out on " + name)
    errs = []
    for line in r.stderr.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("level") in ("error", "error: internal compiler error"):
            errs.append(j)
    if r.returncode == 0 and os.path.exists(out):
        return json.load(open(out)), []
    if not errs:
        raise Broken("driver failed on %s (rc %s):\n%s" % (name, r.returncode, r.stderr[-3000:]))
    return None, errs
