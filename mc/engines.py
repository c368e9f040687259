"""Builds and runs the exploration engines."""
import json, os, shutil, subprocess, time

ENGINES = {
    "C09": ["E2"],
    "C20": ["E2", "E3"],
    "C10": ["E2"],
    "C06": ["E3"],
    "C07": ["E2", "E4"],
    "C08": ["E2"],
    "C01": ["E1", "E2"],
    "C02": ["E1"],
    "C03": ["E1", "E2", "E3"],
    "C04": ["E1", "E2"],
    "C05": ["E1", "E2", "E3"],
    "C11": ["E4"],
    "C12": ["E1", "E3", "E4"],
    "C13": ["E1"],
    "C14": ["E1"],
    "C15": ["E1"],
    "C16": ["E1"],
    "C17": ["E1"],
    "C18": ["E1"],
    "C19": ["E1", "E2"],
}

MOD = "github.com/gkampitakis/go-snaps"


class BuildError(Exception):
    pass


def goenv():
    env = {
        "PATH": "/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": os.environ.get("HOME", "/root"),
        "GOPATH": "/root/go",
        "GOCACHE": os.environ.get("GOCACHE", "/root/.cache/go-build"),
        "GOFLAGS": "-mod=mod",
        "GOPROXY": "off",
        "GOSUMDB": "off",
        "GOTOOLCHAIN": "local",
        "GOWORK": "off",
        "CGO_ENABLED": os.environ.get("CGO_ENABLED", "1"),
        "LANG": "C",
    }
    return env


def module(base, name, repo, extra_require=()):
    """A scratch module, inside the go-snaps import tree, that builds /repo."""
    d = os.path.join(base, name)
    os.makedirs(d)
    lines = open(os.path.join(repo, "go.mod")).read().split("\n")
    out = []
    for l in lines:
        if l.startswith("module "):
            l = "module %s/zzverif/%s" % (MOD, name)
        out.append(l)
    out.append("require %s v0.0.0" % MOD)
    out.append("replace %s => %s" % (MOD, repo))
    for r in extra_require:
        out.append("require " + r)
    open(os.path.join(d, "go.mod"), "w").write("\n".join(out) + "\n")
    shutil.copy(os.path.join(repo, "go.sum"), os.path.join(d, "go.sum"))
    with open(os.path.join(d, "go.sum"), "a") as f:
        f.write("gopkg.in/yaml.v3 v3.0.1 h1:fxVm/GzAzEWqLHuvctI91KS9hhNmmWOoWu0XTYJS7CA=\n"
                "gopkg.in/yaml.v3 v3.0.1/go.mod h1:K4uyk7z7BCEPqu6E+C64Yfv1cQ7kz7rIZviUmN+EgEM=\n"
                "gopkg.in/check.v1 v0.0.0-20161208181325-20d25e280405/go.mod h1:Co6ibVJAznAaIkqp8huTwlJQCZ016jof/cbN4VW5Yz0=\n")
    return d


def sh(cmd, cwd, env, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


ALPHA = """
func TestA(t *testing.T)   { interpAlpha(t, spec.Tests["TestA"]) }
func TestAB(t *testing.T)  { interpAlpha(t, spec.Tests["TestAB"]) }
func TestA_b(t *testing.T) { interpAlpha(t, spec.Tests["TestA_b"]) }
func Test1(t *testing.T)   { interpAlpha(t, spec.Tests["Test1"]) }
func Test10(t *testing.T)  { interpAlpha(t, spec.Tests["Test10"]) }

func FuzzA(f *testing.F) {
	f.Add([]byte("x"))
	f.Add([]byte("y"))
	f.Fuzz(func(t *testing.T, b []byte) { interpAlpha(t, spec.Tests["FuzzA"]) })
}

func BenchmarkA(b *testing.B) { interpAlpha(b, spec.Tests["BenchmarkA"]) }
"""

BETA = """
func TestB(t *testing.T)  { interpBeta(t, spec.Tests["TestB"]) }
func TestBA(t *testing.T) { interpBeta(t, spec.Tests["TestBA"]) }
func TestC(t *testing.T)  { interpBeta(t, spec.Tests["TestC"]) }
func Test_A(t *testing.T) { interpBeta(t, spec.Tests["Test_A"]) }

func FuzzB(f *testing.F) { interpBeta(f, spec.Tests["FuzzB"]) }
"""


def prepare_e2(base, repo, verif):
    env = goenv()
    d = module(base, "e2", repo)
    src = os.path.join(verif, "mc", "e2")
    copy_src(verif, "e2", d)
    types = open(os.path.join(src, "types.go")).read()
    child = os.path.join(src, "child")
    rd = lambda n: open(os.path.join(child, n)).read()
    workers = os.cpu_count() or 8
    for w in range(workers):
        p = os.path.join(d, "w%d" % w)
        os.makedirs(p)
        wr = lambda n, s: open(os.path.join(p, n), "w").write(s)
        wr("types.go", types.replace("package main", "package pkg"))
        wr("helper.go", rd("helper.go.txt"))
        wr("main_test.go", rd("main_test.go.txt"))
        wr("alpha_test.go", rd("test.go.txt").replace("@X@", "Alpha") + ALPHA)
        wr("beta_test.go", rd("test.go.txt").replace("@X@", "Beta") + BETA)
    sh(["go", "build", "-o", "e2.bin", "."], d, env)
    procs = []
    for w in range(workers):
        cmd = ["go", "test", "-c", "-vet=off", "-o", "w%d.test" % w, "./w%d" % w]
        procs.append((cmd, subprocess.Popen(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for cmd, p in procs:
        out, _ = p.communicate(timeout=600)
        if p.returncode != 0:
            raise BuildError("%s\n%s" % (" ".join(cmd), out[-6000:]))
    return os.path.join(d, "e2.bin"), d, env


def drive(binary, cwd, pid, tier, base, verif, opts, env, engine):
    out = os.path.join(base, "out-%s.json" % engine)
    work = os.path.join(base, "work-%s" % engine)
    os.makedirs(work)
    e = {"PATH": env["PATH"], "HOME": env["HOME"], "LANG": "C",
         "MC_PROP": pid, "MC_TIER": tier, "MC_BASE": work, "MC_OUT": out,
         "MC_KNOWN": os.path.join(verif, "known-findings.txt"),
         "MC_ONLY": opts.get("index", ""), "MC_LIMIT": opts.get("limit", ""), "MC_CHUNK": opts.get("chunk", ""),
         "MC_BIN": cwd, "MC_WORKERS": str(os.cpu_count() or 8), "MC_RACEBIN": env.get("MC_RACEBIN", ""), "MC_SHOW": os.environ.get("MC_SHOW", ""), "MC_ALLKEYS": os.environ.get("MC_ALLKEYS", ""), "MC_STACK": opts.get("stack", ""), "MC_TIMES": os.environ.get("MC_TIMES", ""), "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}
    p = subprocess.run([binary], cwd=cwd, env=e)
    if p.returncode != 0 or not os.path.exists(out):
        raise BuildError("driver of %s ended with %s" % (engine, p.returncode))
    return json.load(open(out))


def copy_src(verif, name, d):
    for f in os.listdir(os.path.join(verif, "mc", name)):
        s = os.path.join(verif, "mc", name, f)
        if os.path.isfile(s):
            shutil.copy(s, os.path.join(d, f))


def prepare(eng, base, repo, verif, tier="quick"):
    """Builds an engine; returns (binary, cwd, env)."""
    if eng == "E4":
        return prepare_e4(base, repo, verif, tier)
    return {"E1": prepare_e1, "E2": prepare_e2, "E3": prepare_e3, "E4": prepare_e4}[eng](base, repo, verif)


def run(eng, pid, tier, base, repo, verif, opts):
    binary, cwd, env = prepare(eng, base, repo, verif, tier)
    return drive(binary, cwd, pid, tier, base, verif, opts, env, eng)


def prepare_e1(base, repo, verif):
    env = goenv()
    d = module(base, "e1", repo, ["gopkg.in/yaml.v3 v3.0.1"])
    copy_src(verif, "e1", d)
    sh(["go", "test", "-c", "-vet=off", "-o", "e1.test", "."], d, env)
    return os.path.join(d, "e1.test"), d, env

def prepare_e3(base, repo, verif):
    env = goenv()
    src = os.path.join(verif, "mc", "e3")
    tool = os.path.join(base, "e3tool")
    os.makedirs(tool)
    shutil.copy(os.path.join(src, "tool", "main.go.txt"), os.path.join(tool, "main.go"))
    open(os.path.join(tool, "go.mod"), "w").write("module zztool\ngo 1.22\n")
    sh(["go", "build", "-o", "tool.bin", "."], tool, env)
    last = None
    for mode in ("reset", "noreset"):
        d = os.path.join(base, "e3-" + mode)
        os.makedirs(d)
        sh([os.path.join(tool, "tool.bin"), repo, d, mode], base, env)
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(repo, f), os.path.join(d, f))
        for s in os.listdir(os.path.join(src, "shim")):
            p = os.path.join(d, "internal", "zzmc", s)
            os.makedirs(p)
            for f in os.listdir(os.path.join(src, "shim", s)):
                t = open(os.path.join(src, "shim", s, f)).read().replace('"MOD/', '"%s/' % MOD)
                open(os.path.join(p, f[:-4]), "w").write(t)
        drv = os.path.join(d, "zzverif", "e3")
        os.makedirs(drv)
        copy_src(verif, "e3", drv)
        try:
            sh(["go", "test", "-c", "-vet=off", "-o", "e3.test", "./zzverif/e3"], d, env)
        except BuildError as e:
            last = e
            continue
        try:
            sh(["go", "test", "-c", "-race", "-vet=off", "-o", "e3race.test", "./zzverif/e3"], d, env)
        except BuildError as e:
            print("note: no race detector build: %s" % str(e)[-300:])
        env["MC_RACEBIN"] = os.path.join(d, "e3race.test")
        return os.path.join(d, "e3.test"), d, env
    raise last


E4_LAYOUTS = [("", "root"), ("a", "a"), ("a/b/c", "c"), ("d_test.go/p", "p"), ("internal/x-y.z", "xyz"),
              ("cmd/tool", "main"), ("testing", "testing"), ("go-snaps/snaps", "snaps")]
E4_MODES = {
    "plain": [], "trim": ["-trimpath"],
    "noinl": ["-gcflags=example.com/...=-l", "-gcflags=%s/...=-l" % MOD],
    "trimnoinl": ["-trimpath", "-gcflags=example.com/...=-l", "-gcflags=%s/...=-l" % MOD],
    "noopt": ["-gcflags=example.com/...=-N -l", "-gcflags=%s/...=-N -l" % MOD],
    "race": ["-race"], "cover": ["-cover", "-coverpkg=./..."], "trimstrip": ["-trimpath", "-ldflags=-s -w"],
}


def e4_sources(d, repo, verif):
    child = os.path.join(verif, "mc", "e4", "child")
    rd = lambda n: open(os.path.join(child, n)).read()
    call = rd("call.txt").rstrip("\n")

    def wr(path, text):
        path = os.path.join(d, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        text = text.replace("@CALL@", call)
        assert "@" not in text, (path, text)
        open(path, "w").write(text)

    mod = open(os.path.join(repo, "go.mod")).read().split("\n")
    mod = ["module example.com/u" if l.startswith("module ") else l for l in mod]
    wr("go.mod", "\n".join(mod) + "\nrequire %s v0.0.0\nreplace %s => %s\n" % (MOD, MOD, repo))
    shutil.copy(os.path.join(repo, "go.sum"), os.path.join(d, "go.sum"))
    wr("zz/zz.go", rd("zz.go.txt"))
    lib = lambda pkg, leaf, tr: rd("lib.go.txt").replace("@PKG@", pkg).replace("@LEAF@", leaf).replace("@TR@", tr)
    for i, (path, pkg) in enumerate(E4_LAYOUTS):
        l = "lib%d" % i
        wr(l + "/lib.go", lib("lib", "Leaf", "tRunner"))
        wr(l + "/testing/testing.go", lib("testing", "Leaf", "tRunner"))
        wr(l + "/d_test.go/snaps/snapshot.go", lib("snaps", "Leaf", "tRunner"))
        j = lambda f: os.path.join(path, f)
        wr(j("help.go"), lib(pkg, "HelpLeaf", "tRunner"))
        wr(j("h_test.go.go"), lib(pkg, "WeirdLeaf", "tRunner2"))
        if pkg == "main":
            wr(j("main.go"), "package main\n\nfunc main() {}\n")
        wr(j("main_test.go"), rd("main_test.go.txt").replace("@PKG@", pkg))
        for x, y, f, ext in (("A", "B", "a_test.go", 0), ("B", "A", "b.v1_test.go", 0), ("E", "F", "e-x_test.go", 1), ("F", "E", "f_ext_test.go", 1)):
            t = rd("test.go.txt").replace("@X@", x).replace("@Y@", y).replace("@O@", "").replace("@LIB@", l)
            t = t.replace("@PKG@", pkg + "_test" if ext else pkg).replace("@H@", "hp." if ext else "")
            t = t.replace("@IMPORT@", '\n\thp "example.com/u%s"' % ("/" + path if path else "") if ext else "")
            wr(j(f), t)


def prepare_e4(base, repo, verif, tier="quick"):
    env = goenv()
    top = os.path.join(base, "e4 r%d")
    d, d2 = os.path.join(top, "m"), os.path.join(top, "go s")
    e4_sources(d, repo, verif)
    e4_sources(d2, repo, verif)
    drv = os.path.join(base, "e4drv")
    os.makedirs(drv)
    copy_src(verif, "e4", drv)
    open(os.path.join(drv, "go.mod"), "w").write("module e4\ngo 1.22\n")
    sh(["go", "build", "-o", "e4.bin", "."], drv, env)
    bins = os.path.join(base, "e4bin")
    os.makedirs(bins)
    modes = list(E4_MODES) if tier == "thorough" else ["plain", "trim", "noinl"]
    if tier == "thorough":
        sh(["go", "test", "-c", "-race", "-vet=off", "-o", os.path.join(bins, "x"), "./a"], d, env)
    jobs = [(m, i) for m in modes for i in range(len(E4_LAYOUTS))]
    conf = {m: [os.path.join(bins, "%s%d.test" % (m, i)) for i in range(len(E4_LAYOUTS))] for m in modes}
    from concurrent.futures import ThreadPoolExecutor

    def build(j):
        m, i = j
        sh(["go", "test", "-c", "-vet=off"] + E4_MODES[m] + ["-o", conf[m][i], "./" + E4_LAYOUTS[i][0]], d, env)

    for m in modes:
        build((m, 0))
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(build, [j for j in jobs if j[1]]))
    # the tests run without privileges and write into the package directories
    user = 65534 if os.geteuid() == 0 else 0
    for root, ds, _ in os.walk(top):
        if user:
            os.chown(root, user, user)
    for n in (bins, base):
        os.chmod(n, 0o755)
    go = shutil.which("go", path=env["PATH"])
    json.dump({"Base": base, "Root": d, "Root2": d2, "Layouts": [{"Idx": i, "Dir": p, "Pkg": k} for i, (p, k) in enumerate(E4_LAYOUTS)],
               "Bins": conf, "Go": go, "Env": ["%s=%s" % kv for kv in env.items()], "User": user}, open(os.path.join(drv, "conf.json"), "w"))
    return os.path.join(drv, "e4.bin"), drv, env
