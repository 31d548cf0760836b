"""Explores vfc_ci setup: all reachable states, up to a depth, of a repository, its remote and its CI branch under
the actions of the user, of other users, of the CI workflows (executed as they were generated) and of a remote that
refuses pushes.  Every state is a real pair of repositories in a scratch directory.  Prints a JSON report."""
import hashlib, json, multiprocessing, os, shutil, subprocess, sys, time, traceback

TIER, BASE, JOBS = sys.argv[1], sys.argv[2], int(sys.argv[3])
REP = {"states": 0, "transitions": 0, "nontrivial": 0, "traces": 0, "viols": [], "samples": [], "counters": {}}
import yaml
import git, jinja2  # noqa: F401  (imported once, before the forks)

HUB, LAB = ".github/workflows/vfc_test_workflow.yml", ".gitlab-ci.yml"
WORKFLOW = {"github": HUB, "gitlab": LAB}
PROJECT = "gitlab.example/group/proj"
URLS = ["https://%s.git" % PROJECT, "https://" + PROJECT, "http://%s.git" % PROJECT, "git@gitlab.example:group/proj.git",
        "ssh://git@gitlab.example/group/proj.git", "https://someone@%s.git" % PROJECT, "https://%s/" % PROJECT]
PUSH_URL = "https://jane:tok@%s.git" % PROJECT


class Bad(Exception):
    pass


class Harness(Exception):
    pass


def count(k, n=1):
    REP["counters"][k] = REP["counters"].get(k, 0) + n


def env_of(d, url):
    e = {"PATH": os.path.join(BASE, "bin") + ":" + os.environ["PATH"], "HOME": os.path.join(d, "home"), "LC_ALL": "C.UTF-8",
         "GIT_CONFIG_NOSYSTEM": "1", "GIT_TERMINAL_PROMPT": "0", "GIT_ALLOW_PROTOCOL": "file", "GIT_TEMPLATE_DIR": os.path.join(BASE, "tpl"),
         "GIT_AUTHOR_DATE": "1577836800 +0000", "GIT_COMMITTER_DATE": "1577836800 +0000", "TMPDIR": d, "PYTHONDONTWRITEBYTECODE": "1",
         "PYTHONPATH": os.environ.get("PYTHONPATH", "")}
    pairs = [(u, "file://%s/origin.git" % d) for u in dict.fromkeys((url, PUSH_URL))]
    e["GIT_CONFIG_COUNT"] = str(len(pairs))
    for i, (u, p) in enumerate(pairs):
        e["GIT_CONFIG_KEY_%d" % i], e["GIT_CONFIG_VALUE_%d" % i] = "url.%s.insteadOf" % p, u
    return e


class World:
    """A remote repository, the clone of a user and nothing else; copied as a whole."""

    def __init__(self, d, cfg):
        self.d, self.cfg = d, cfg
        self.env = env_of(d, cfg["url"])
        self.c, self.o = os.path.join(d, "c"), os.path.join(d, "origin.git")

    def run(self, cmd, cwd=None, check=True, **kw):
        r = subprocess.run(cmd, cwd=cwd or self.c, env=dict(self.env, **kw), capture_output=True, text=True, stdin=subprocess.DEVNULL, timeout=120)
        if check and r.returncode:
            raise Harness("%s: %s" % (cmd, r.stderr or r.stdout))
        return r

    def git(self, *a, cwd=None, check=True, **kw):
        return self.run(["git"] + list(a), cwd, check, **kw).stdout.strip()

    def create(self):
        os.makedirs(os.path.join(self.d, "home"))
        with open(os.path.join(self.d, "home", ".gitconfig"), "w") as f:
            f.write("[user]\n\tname = Me\n\temail = me@example.org\n[gc]\n\tauto = 0\n[init]\n\tdefaultBranch = trunk\n[advice]\n\tdetachedHead = false\n")
        dev = self.cfg["dev"]
        self.run(["git", "init", "-q", "--bare", self.o], self.d)
        self.run(["git", "init", "-q", self.c], self.d)
        self.git("symbolic-ref", "HEAD", "refs/heads/" + dev)
        self.git("symbolic-ref", "HEAD", "refs/heads/" + dev, cwd=self.o)
        self.git("remote", "add", "origin", self.cfg["url"])
        self.write("a.txt", "one\n")
        self.write("src/b.c", "int b;\n")
        self.write(".gitignore", "*.log\n")
        if self.cfg.get("readme"):
            self.write("README.md", "the project\n")
        self.git("add", ".")
        self.git("commit", "-q", "-m", "one")
        if self.cfg.get("tag"):
            self.git("tag", dev)
            self.write("a.txt", "two\n")
            self.git("commit", "-q", "-a", "-m", "two")
        self.git("push", "-q", "-u", "origin", "refs/heads/%s:refs/heads/%s" % (dev, dev))
        return self

    def write(self, p, s, root=None):
        p = os.path.join(root or self.c, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(s)

    # ------------------------------------------------------------ what there is
    def refs(self, cwd):
        out = self.git("for-each-ref", "--format=%(refname) %(objectname)", cwd=cwd)
        return dict(reversed(x.split(" ")) if False else x.rsplit(" ", 1) for x in out.splitlines())

    def files(self):
        res = {}
        for root, dirs, names in os.walk(self.c):
            if root == self.c and ".git" in dirs:
                dirs.remove(".git")
            for n in names:
                p = os.path.join(root, n)
                with open(p, "rb") as f:
                    res[os.path.relpath(p, self.c)] = f.read()
        return res

    def head(self):
        with open(os.path.join(self.c, ".git", "HEAD")) as f:
            return f.read().strip()

    def branch(self):
        h = self.head()
        return h[len("ref: refs/heads/"):] if h.startswith("ref: refs/heads/") else None

    def snap(self):
        return dict(remote=self.refs(self.o), local=self.refs(self.c), head=self.head(), index=self.git("ls-files", "-s"), files=self.files(),
                    hook=self.hook(), upstream=self.upstream())

    def hook(self):
        try:
            with open(os.path.join(self.o, "hooks", "update")) as f:
                return f.read()
        except FileNotFoundError:
            return ""

    def upstream(self):
        b = self.branch()
        return self.git("config", "branch.%s.merge" % b, check=False) if b else ""

    def tree(self, commit, cwd):
        out = self.git("ls-tree", "-r", "-z", commit, cwd=cwd)
        return {x.split("\t", 1)[1]: x.split("\t", 1)[0] for x in out.split("\0") if x}

    def show(self, commit, path, cwd):
        return self.run(["git", "cat-file", "blob", "%s:%s" % (commit, path)], cwd).stdout

    def parents(self, commit, cwd):
        return self.git("rev-list", "--parents", "-n1", commit, cwd=cwd).split()[1:]

    def clean(self):
        return not self.git("status", "--porcelain", "--untracked-files=no")


def key(s):
    return hashlib.sha1(repr(sorted((k, sorted(v.items()) if isinstance(v, dict) else v) for k, v in s.items())).encode()).hexdigest()


# ---------------------------------------------------------------- actions; each returns False when it does not apply

def setup(host):
    def act(w):
        before = w.snap()
        b = w.branch()
        clean = w.clean()
        remote_dev = before["remote"].get("refs/heads/%s" % b)
        local_dev = before["local"].get("refs/heads/%s" % b)
        up = bool(b) and before["upstream"] == "refs/heads/" + b and remote_dev is not None
        sync = up and remote_dev == local_dev
        behind = up and not sync and w.git("merge-base", "--is-ancestor", remote_dev, local_dev, check=False) == "" and \
            w.run(["git", "merge-base", "--is-ancestor", remote_dev, local_dev], check=False).returncode != 0
        rc, out = call_setup(w, host)
        after = w.snap()
        what = "vfc_ci setup %s on %s (%s, %s%s): exit %s\n%s" % (host, b, "clean" if clean else "dirty", "in sync" if sync else "behind" if behind else "ahead" if up else "no upstream",
                                                              ", hook" if before["hook"] else "", rc, out[-600:])
        wf = WORKFLOW[host]
        if rc == 0:
            if not clean or not up or behind:
                raise Bad("it should have refused: " + what)
            succeeded(w, host, b, before, after, what)
            REP_count(w, "setup done")
        else:
            if clean and sync and not before["hook"]:
                raise Bad("it should have worked: " + what)
            if not before["hook"] or not clean or not up or behind:
                def core(s):
                    return dict(s, local={k: v for k, v in s["local"].items() if not k.startswith("refs/remotes/")})
                if core(before) != core(after):
                    raise Bad("it refused but changed something: %s\n%s" % (what, diff(core(before), core(after))))
                REP_count(w, "setup refused")
            else:
                # the remote refused a branch: nothing of the user is lost or published
                kept(w, wf, b, before, after, what)
                for k in set(before["remote"]) | set(after["remote"]):
                    if k not in ("refs/heads/" + b, "refs/heads/vfc_ci_" + b) and before["remote"].get(k) != after["remote"].get(k):
                        raise Bad("remote %s changed: %s" % (k, what))
                n = after["remote"].get("refs/heads/" + b)
                if n != remote_dev:
                    only_workflow(w, remote_dev, n, w.o, wf, what)
                n = after["remote"].get("refs/heads/vfc_ci_" + b)
                o = before["remote"].get("refs/heads/vfc_ci_" + b)
                if o and n != o:
                    raise Bad("the existing CI branch changed: " + what)
                REP_count(w, "setup failed push")
        return True
    return act


def diff(a, b):
    res = []
    for k in a:
        if isinstance(a[k], dict):
            for x in sorted(set(a[k]) | set(b[k])):
                if a[k].get(x) != b[k].get(x):
                    res.append("%s %s: %.80r -> %.80r" % (k, x, a[k].get(x), b[k].get(x)))
        elif a[k] != b[k]:
            res.append("%s: %.200r -> %.200r" % (k, a[k], b[k]))
    return "\n".join(res)


def only_workflow(w, old, new, cwd, wf, what):
    if w.parents(new, cwd) != [old]:
        raise Bad("the development branch did not get exactly one commit: " + what)
    a, b = w.tree(old, cwd), w.tree(new, cwd)
    ch = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
    if ch not in ([], [wf]):
        raise Bad("the commit on the development branch changes %s: %s" % (ch, what))


def kept(w, wf, b, before, after, what):
    """the work tree, the current branch and the other local branches are as before, but for the workflow"""
    if after["head"] != before["head"]:
        raise Bad("HEAD is now %s: %s" % (after["head"], what))
    fa, fb = dict(before["files"]), dict(after["files"])
    fa.pop(wf, None)
    fb.pop(wf, None)
    if fa != fb:
        raise Bad("the work tree changed: %s\n%s" % (what, diff({"files": fa}, {"files": fb})))
    ld = after["local"]["refs/heads/" + b]
    if w.git("write-tree") != w.git("rev-parse", ld + "^{tree}"):
        raise Bad("the index is not the current commit: " + what)
    if not w.clean():
        raise Bad("tracked files are modified: %s\n%s" % (what, w.git("status", "--porcelain")))
    for k in set(before["local"]) | set(after["local"]):
        if k not in ("refs/heads/" + b, "refs/heads/vfc_ci_" + b) and not k.startswith("refs/remotes/") and before["local"].get(k) != after["local"].get(k):
            raise Bad("local %s changed: %s" % (k, what))
    o = before["local"].get("refs/heads/vfc_ci_" + b)
    if o and after["local"].get("refs/heads/vfc_ci_" + b) != o:
        raise Bad("the local CI branch changed: " + what)
    if ld != before["local"]["refs/heads/" + b]:
        only_workflow(w, before["local"]["refs/heads/" + b], ld, w.c, wf, what)


def succeeded(w, host, b, before, after, what):
    wf, ci = WORKFLOW[host], "vfc_ci_" + b
    kept(w, wf, b, before, after, what)
    dev, new = before["local"]["refs/heads/" + b], after["remote"].get("refs/heads/" + b)
    if new != after["local"]["refs/heads/" + b]:
        raise Bad("the workflow was not pushed: " + what)
    if before["remote"]["refs/heads/" + b] == dev and new != dev:
        only_workflow(w, dev, new, w.o, wf, what)
    for k in set(before["remote"]) | set(after["remote"]):
        if k not in ("refs/heads/" + b, "refs/heads/" + ci) and before["remote"].get(k) != after["remote"].get(k):
            raise Bad("remote %s changed: %s" % (k, what))
    tree = w.tree(new, w.o)
    if wf not in tree:
        raise Bad("no workflow on the development branch: " + what)
    text = w.show(new, wf, w.o)
    if after["files"].get(wf, b"").decode() != text:
        raise Bad("the workflow of the work tree is not the one committed: " + what)
    trigger(text, host, b, what)
    old, now = before["remote"].get("refs/heads/" + ci), after["remote"].get("refs/heads/" + ci)
    if now is None:
        raise Bad("no CI branch on the remote: " + what)
    if old:
        if now != old:
            raise Bad("the existing CI branch changed: %s\nfiles before %s, after %s" % (what, sorted(w.tree(old, w.o)), sorted(w.tree(now, w.o))))
    elif before["local"].get("refs/heads/" + ci):
        if now != before["local"]["refs/heads/" + ci]:
            raise Bad("the CI branch is not the local one: " + what)
    else:
        if w.parents(now, w.o):
            raise Bad("the CI branch has a history: " + what)
        if sorted(w.tree(now, w.o)) != ["README.md"]:
            raise Bad("the CI branch has %s: %s" % (sorted(w.tree(now, w.o)), what))
        readme = w.show(now, "README.md", w.o)
        if "`%s`" % b not in readme or "`%s`" % ci not in readme:
            raise Bad("the README names other branches: %s\n%s" % (what, readme))


def load(text, what):
    try:
        y = yaml.safe_load(text)
    except yaml.YAMLError as e:
        raise Bad("the workflow is not YAML (%s): %s\n%s" % (e, what, text))
    return y


def trigger(text, host, b, what):
    y = load(text, what)
    if host == "github":
        on = y.get(True, y.get("on"))
        if on["push"]["branches"] != [b]:
            raise Bad("the workflow runs on %r: %s" % (on["push"]["branches"], what))
    else:
        rules = y["run_verificarlo_tests"]["rules"]
        if len(rules) != 1 or "".join(rules[0]["if"].split()) != '$CI_COMMIT_BRANCH=="%s"' % b:
            raise Bad("the workflow runs if %r: %s" % (rules, what))


def call_setup(w, host):
    """vfc_ci setup <host> in a child"""
    log = os.path.join(w.d, "log")
    answers = os.path.join(w.d, "answers")
    with open(answers, "w") as f:
        f.write("jane\njane@example.org\n")
    pid = os.fork()
    if pid == 0:
        try:
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.dup2(os.open(answers, os.O_RDONLY), 0)
            sys.stdin, sys.stdout, sys.stderr = open(0, closefd=False), open(1, "w", closefd=False), open(2, "w", closefd=False)
            os.environ.clear()
            os.environ.update(w.env)
            os.chdir(w.c)
            sys.argv = ["vfc_ci", "setup", host]
            rc = 0
            try:
                import runpy
                runpy.run_module("verificarlo.ci", run_name="__main__", alter_sys=True)
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException:
                traceback.print_exc()
                rc = 1
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc & 255)
        finally:
            os._exit(99)
    deadline = time.time() + 120
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() > deadline:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            raise Bad("vfc_ci setup does not end")
        time.sleep(.01)
    with open(log, errors="replace") as f:
        out = f.read()
    os.unlink(log)
    os.unlink(answers)
    rc = os.waitstatus_to_exitcode(st)
    if rc == 99 or rc < 0:
        raise Harness("setup child: %s %s" % (rc, out))
    return rc, out


def workflow(w):
    """the CI host runs the workflows found at the tip of the development branch, as they are"""
    b = w.cfg["dev"]
    tip = w.git("rev-parse", "refs/heads/" + b, cwd=w.o)
    ci = "refs/heads/vfc_ci_" + b
    present = [h for h in WORKFLOW if WORKFLOW[h] in w.tree(tip, w.o)]
    if not present or ci not in w.refs(w.o) or w.hook():
        return False
    for host in present:
        y = load(w.show(tip, WORKFLOW[host], w.o), host)
        before = w.refs(w.o)
        old = w.tree(before[ci], w.o)
        n = sum(k.endswith(".h5") for k in old)
        r = os.path.join(w.d, "runner")
        w.run(["git", "clone", "-q", "--no-local", w.cfg["url"], r], w.d)
        if host == "github":
            w.git("checkout", "-q", "-B", b, "refs/remotes/origin/" + b, cwd=r)
            steps = [s["run"] for s in y["jobs"]["run_verificarlo_tests"]["steps"] if "run" in s]
        else:
            w.git("checkout", "-q", "--detach", tip, cwd=r)
            j = y["run_verificarlo_tests"]
            steps = ["\n".join(j["before_script"] + j["script"])]
        extra = dict(GITHUB_WORKSPACE=r, GITHUB_SHA=tip, CI_COMMIT_SHA=tip, CI_COMMIT_BRANCH=b, CI_PUSH_TOKEN="tok", VFC_RUN="%d%s" % (n, host),
                     HOME=os.path.join(w.d, "runner_home"))
        os.makedirs(extra["HOME"])
        for s in steps:
            q = w.run(["bash", "-eo", "pipefail", "-c", s], r, check=False, **extra)
            if q.returncode:
                raise Bad("the %s workflow fails for the branch %s of %s: %s\n%s\n%s" % (host, b, w.cfg["url"], q.returncode, s, (q.stdout + q.stderr)[-1500:]))
        shutil.rmtree(r)
        shutil.rmtree(extra["HOME"])
        after = w.refs(w.o)
        now = w.tree(after[ci], w.o)
        want = dict(old)
        name = "vfcruns/%d%s.vfcrun.h5" % (n, host)
        if set(now) - set(old) != {name} or {k: v for k, v in now.items() if k != name} != want:
            raise Bad("after the %s workflow the CI branch has %s, before %s" % (host, sorted(now), sorted(old)))
        if {k: v for k, v in after.items() if k != ci} != {k: v for k, v in before.items() if k != ci}:
            raise Bad("the %s workflow changed another branch\n%s" % (host, diff({"r": before}, {"r": after})))
        REP_count(w, "workflow run")
    return True


LOCAL = {}


def REP_count(w, k):
    LOCAL[k] = LOCAL.get(k, 0) + 1


def untracked(names):
    def act(w):
        fs = w.files()
        new = [n for n in names if n not in fs]
        for n in new:
            w.write(n, "mine: %s\n" % n)
        return bool(new)
    return act


def modify(w):
    if "modified" in open(os.path.join(w.c, "a.txt")).read():
        return False
    w.write("a.txt", "modified\n")
    return True


def stage(w):
    if os.path.exists(os.path.join(w.c, "staged.c")):
        return False
    w.write("staged.c", "int s;\n")
    w.git("add", "staged.c")
    return True


def commit(push):
    def act(w):
        b = w.branch()
        if b is None:
            return False
        n = len(w.git("rev-list", "HEAD").split())
        if n > 8:
            return False
        w.write("src/b.c", "int b%d;\n" % n)
        w.git("commit", "-q", "-a", "-m", "local %d" % n)
        if push:
            return w.run(["git", "push", "-q", "origin", "HEAD:refs/heads/" + b], check=False).returncode == 0
        return True
    return act


def other(w):
    """someone else pushes to the development branch"""
    b = w.cfg["dev"]
    if w.hook():
        return False
    r = os.path.join(w.d, "other")
    w.run(["git", "clone", "-q", "--no-local", "-b", b, "--single-branch", w.cfg["url"], r], w.d)
    w.git("checkout", "-q", "-B", b, "refs/remotes/origin/" + b, cwd=r)
    if os.path.exists(os.path.join(r, "theirs.c")):
        shutil.rmtree(r)
        return False
    w.write("theirs.c", "int t;\n", r)
    w.git("add", ".", cwd=r)
    w.git("commit", "-q", "-m", "theirs", cwd=r)
    w.git("push", "-q", "origin", "HEAD:refs/heads/" + b, cwd=r)
    shutil.rmtree(r)
    return True


def pull(w):
    if w.branch() != w.cfg["dev"]:
        return False
    h = w.git("rev-parse", "HEAD")
    return w.run(["git", "pull", "-q", "--ff-only"], check=False).returncode == 0 and w.git("rev-parse", "HEAD") != h


def topic(w):
    if w.branch() != w.cfg["dev"]:
        return False
    return w.run(["git", "checkout", "-q", "-b", "topic"], check=False).returncode == 0


def publish(w):
    if w.branch() != "topic" or w.upstream():
        return False
    return w.run(["git", "push", "-q", "-u", "origin", "topic"], check=False).returncode == 0


def back(w):
    if w.branch() == w.cfg["dev"]:
        return False
    return w.run(["git", "checkout", "-q", w.cfg["dev"], "--"], check=False).returncode == 0


def detach(w):
    if w.branch() is None:
        return False
    w.git("checkout", "-q", "--detach")
    return True


def refuse(pattern):
    def act(w):
        text = "#!/bin/sh\ncase $1 in %s) exit 1;; esac\n" % pattern if pattern else ""
        if w.hook() == text:
            return False
        p = os.path.join(w.o, "hooks", "update")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if text:
            with open(p, "w") as f:
                f.write(text)
            os.chmod(p, 0o755)
        else:
            os.unlink(p)
        return True
    return act


def delete_ci(w):
    ci = "refs/heads/vfc_ci_" + w.cfg["dev"]
    if ci not in w.refs(w.o):
        return False
    w.git("update-ref", "-d", ci, cwd=w.o)
    return True


OPS = {
    "setup github": setup("github"), "setup gitlab": setup("gitlab"), "workflow": workflow,
    "untracked": untracked(["notes.txt", "sub/data.bin", "x.log"]), "untracked readme": untracked(["README.md"]),
    "modify": modify, "stage": stage, "commit": commit(False), "commit and push": commit(True), "other": other, "pull": pull,
    "topic": topic, "publish": publish, "back": back, "detach": detach,
    "refuse dev": refuse("refs/heads/vfc_ci_*) ;; *"), "refuse ci": refuse("refs/heads/vfc_ci_*"), "accept": refuse(""), "delete ci": delete_ci,
}


def step(a):
    """(state directory, configuration, action) -> (directory, key, message, counters)"""
    src, dst, cfg, op = a
    LOCAL.clear()
    try:
        shutil.copytree(src, dst, symlinks=True)
        w = World(dst, cfg)
        ok = OPS[op](w)
        if not ok:
            shutil.rmtree(dst)
            return None, None, None, dict(LOCAL)
        return dst, key(w.snap()), None, dict(LOCAL)
    except Bad as e:
        shutil.rmtree(dst, ignore_errors=True)
        return None, None, str(e), dict(LOCAL)
    except Exception:
        return None, "HARNESS", traceback.format_exc(), {}


def configs():
    q = TIER == "quick"
    yield dict(dev="master", url=URLS[0], readme=True), sorted(OPS), int(os.environ.get("C28_DEPTH", 3)) if q else 5
    yield dict(dev="main", url=URLS[3], readme=False), ["setup github", "setup gitlab", "workflow", "untracked", "untracked readme", "commit and push", "delete ci"], 1 + int(os.environ.get("C28_DEPTH", 3)) if q else 6
    short = ["setup github", "setup gitlab", "workflow"]
    for u in URLS:
        for r in (False, True):
            yield dict(dev="master", url=u, readme=r), short, 2 if q else 4
    for dev in ["feature/x", "1.10", "2024", "#12", "fix#12", "a,b", "fix(x)", "a&b", "a;b", "{x}", "on", "null", "user@x", "100%", "-".join(["long"] * 15), "é", "x|y", "%s"]:
        yield dict(dev=dev, url=URLS[0], readme=True), short, 2 if q else 4
    yield dict(dev="v2", url=URLS[0], readme=True, tag=True), short, 2 if q else 4


def main():
    os.makedirs(os.path.join(BASE, "bin"))
    os.makedirs(os.path.join(BASE, "tpl"))
    p = os.path.join(BASE, "bin", "vfc_ci")
    with open(p, "w") as f:
        f.write('#!/bin/sh\n[ "$*" = "test -g -r" ] || exit 9\necho run > $VFC_RUN.vfcrun.h5\necho raw > $VFC_RUN.vfcraw.h5\n')
    os.chmod(p, 0o755)
    n = 0
    with multiprocessing.Pool(JOBS) as pool:
        level = []   # (directory, configuration, actions, remaining depth, history)
        seen = set()
        for ci, (cfg, ops, depth) in enumerate(configs()):
            d = os.path.join(BASE, "s%d" % ci)
            w = World(d, cfg).create()
            REP["states"] += 1
            seen.add((ci, key(w.snap())))
            level.append((d, cfg, ops, depth, (), ci))
        while level:
            tasks, meta = [], []
            for d, cfg, ops, depth, hist, ci in level:
                if depth == 0:
                    continue
                # the last action of a history is one that is checked
                for op in ops if depth > 1 else [o for o in ops if o.startswith(("setup", "workflow"))]:
                    n += 1
                    tasks.append((d, os.path.join(BASE, "t%d" % n), cfg, op))
                    meta.append((cfg, ops, depth, hist + (op,), ci))
            nxt = []
            for (cfg, ops, depth, hist, ci), (d, k, msg, cnt) in zip(meta, pool.imap(step, tasks, chunksize=4)):
                for a, b in cnt.items():
                    count(a, b)
                if k == "HARNESS":
                    sys.stderr.write("%s %s\n%s" % (cfg, hist, msg))
                    sys.exit(3)
                if msg:
                    REP["transitions"] += 1
                    if len(REP["viols"]) < 8:
                        REP["viols"].append(("%s after %s (branch %s, url %s): %s" % (hist[-1], list(hist[:-1]), cfg["dev"], cfg["url"], msg))[:3000])
                    continue
                if d is None:
                    continue
                REP["transitions"] += 1
                if (ci, k) in seen or depth == 1:
                    if (ci, k) not in seen:
                        seen.add((ci, k))
                        REP["states"] += 1
                    shutil.rmtree(d)
                    continue
                seen.add((ci, k))
                REP["states"] += 1
                nxt.append((d, cfg, ops, depth - 1, hist, ci))
                if len(REP["samples"]) < 5 and len(hist) >= 3:
                    REP["samples"].append("%s: %s" % (cfg["dev"], " > ".join(hist)))
            for x in level:
                shutil.rmtree(x[0], ignore_errors=True)
            level = nxt
    REP["nontrivial"] = sum(v for k, v in REP["counters"].items())
    REP["traces"] = REP["counters"].get("workflow run", 0)


main()
print(json.dumps(REP))
