"""Just enough of Bazel to evaluate the repository's rules and macros in Python.

The .bzl files are executed as Python (they use the common subset of the two languages; `type` is replaced). A rule call
is analysed at once: its implementation runs with a context over files in a scratch tree, actions are recorded, `write`
and `expand_template` are carried out, and `run`/`run_shell` actions are carried out in the execution root.
"""
import ast
import os
import subprocess


class Failed(Exception):
    """The macro or rule called fail(), or was given an attribute it does not accept."""


class File:
    def __init__(self, world, pkg, name, generated=False, repo=""):
        self.name, self.repo = name, repo
        inner = os.path.normpath(os.path.join(pkg, name))
        sub = os.path.join("external", repo, inner) if repo else inner
        self.root = Struct(path="bazel-out/k8-fastbuild/bin" if generated else "")
        self.path = os.path.join(self.root.path, sub) if generated else sub
        self.short_path = os.path.join("..", repo, inner) if repo else inner
        self.basename = os.path.basename(inner)
        self.dirname = os.path.dirname(self.path)
        self.extension = self.basename.rsplit(".", 1)[1] if "." in self.basename else ""
        self.is_source = not generated
        self.runfile = os.path.join(repo, inner) if repo else os.path.join(world.workspace, inner)
        self.abs = os.path.join(world.execroot, self.path)

    def __str__(self):
        return "<File %s>" % self.path

    def __repr__(self):
        return str(self)

    def __format__(self, spec):
        return format(str(self), spec)


class Struct:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Depset:
    def __init__(self, direct=(), transitive=(), order="default"):
        self.items = list(direct)
        for t in transitive or ():
            self.items += t.to_list()

    def to_list(self):
        out = []
        for i in self.items:
            if i not in out:
                out.append(i)
        return out


class Attr:
    def __init__(self, kind, kw):
        self.kind, self.kw = kind, kw


class AttrModule:
    def __getattr__(self, kind):
        return lambda *a, **kw: Attr(kind, kw)


class Target:
    def __init__(self, files, setting=None):
        self.files = Depset(files)
        self.setting = setting

    def __getitem__(self, provider):
        return Struct(value=self.setting, files=self.files)


class Args:
    def __init__(self):
        self.items = []

    def add(self, a, b=None, format=None):
        for v in [a] if b is None else [a, b]:
            v = v.path if isinstance(v, File) else str(v)
            self.items.append(v if format is None or v == a else format % v)

    def add_all(self, a, b=None, before_each=None, format_each=None, **unused):
        if b is not None:
            self.items.append(a)
        for v in listed(b if b is not None else a):
            if before_each is not None:
                self.items.append(before_each)
            v = v.path if isinstance(v, File) else str(v)
            self.items.append(format_each % v if format_each else v)

    def add_joined(self, a, b=None, join_with="", **unused):
        if b is not None:
            self.items.append(a)
        self.items.append(join_with.join(v.path if isinstance(v, File) else str(v) for v in listed(b if b is not None else a)))


class Elems(ast.NodeTransformer):
    """Starlark's `text.elems()` is Python's `list(text)`."""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "elems" and not node.args:
            return ast.copy_location(ast.Call(ast.Name("list", ast.Load()), [node.func.value], []), node)
        return node


def listed(v):
    return v.to_list() if isinstance(v, Depset) else v


def quote(s):
    return "'" + s.replace("'", "'\\''") + "'"


def flat(args):
    out = []
    for a in args:
        out += a.items if isinstance(a, Args) else [a.path if isinstance(a, File) else str(a)]
    return out


class World:
    def __init__(self, repo_dir, root, workspace="_main", package="pkg"):
        self.repo_dir, self.root, self.workspace, self.package = repo_dir, root, workspace, package
        self.execroot = os.path.join(root, "execroot")
        self.files = {}      # label -> File
        self.tools = {}      # label -> absolute path of the executable
        self.settings = {}   # label -> value of a build setting
        self.tests = {}      # name -> (executable File, [runfiles])
        self.suites = {}
        self.targets = {}
        self.modules = {}
        self.config = "//conditions:default"
        os.makedirs(self.execroot, exist_ok=True)

    def add(self, name, data, package=None, repo="", generated=False):
        pkg = self.package if package is None else package
        f = File(self, pkg, name, generated, repo)
        label = "%s//%s:%s" % ("@" + repo if repo else "", pkg, name)
        self.files[label] = f
        os.makedirs(os.path.dirname(f.abs), exist_ok=True)
        with open(f.abs, "wb") as out:
            out.write(data)
        return label

    def resolve(self, label):
        s = str(label)
        if s.startswith("//") or s.startswith("@"):
            return s
        return "//%s:%s" % (self.package, s.lstrip(":"))

    def file(self, label):
        s = self.resolve(label)
        if s not in self.files:
            raise Failed("no such file: " + s)
        return self.files[s]

    # ---- evaluation ----

    def load(self, rel):
        """-> the global names of a .bzl file."""
        if rel in self.modules:
            return self.modules[rel]
        g = {}

        def do_load(label, *names, **renamed):
            known = {"shell": Struct(quote=quote, array_literal=lambda v: "(" + " ".join(quote(str(x)) for x in v) + ")"),
                     "dicts": Struct(add=lambda *ds, **kw: {k: v for d in list(ds) + [kw] for k, v in d.items()}),
                     "paths": Struct(basename=os.path.basename, join=os.path.join, dirname=os.path.dirname, normalize=os.path.normpath,
                                     split_extension=os.path.splitext, replace_extension=lambda p, e: os.path.splitext(p)[0] + e),
                     "BuildSettingInfo": "BuildSettingInfo"}
            for new, old in [(n, n) for n in names] + list(renamed.items()):
                if label.startswith("//"):
                    g[new] = self.load(label[2:].replace(":", "/"))[old]
                elif old in known:
                    g[new] = known[old]
                else:
                    raise Failed("unknown load of %s from %s" % (old, label))

        def starlark_type(v):
            names = {str: "string", bool: "bool", int: "int", list: "list", tuple: "tuple", dict: "dict", type(None): "NoneType"}
            return names.get(type(v), type(v).__name__)

        def fail(*args, **unused):
            raise Failed(" ".join(str(a) for a in args))

        def suite(name, tests=None, **unused):
            self.suites[name] = list(tests or [])

        g.update(load=do_load, type=starlark_type, fail=fail, attr=AttrModule(), Label=str, depset=Depset, struct=Struct,
                 rule=self.rule, DefaultInfo=lambda **kw: Struct(**kw), select=lambda d, **kw: d[self.config],
                 native=Struct(test_suite=suite, package_name=lambda: self.package), provider=lambda *a, **kw: Struct,
                 CcInfo="CcInfo", OutputGroupInfo=lambda **kw: Struct(**kw), RunEnvironmentInfo=lambda **kw: Struct(**kw))
        path = os.path.join(self.repo_dir, rel)
        tree = ast.fix_missing_locations(Elems().visit(ast.parse(open(path, encoding="utf-8").read(), path)))
        exec(compile(tree, path, "exec"), g)
        self.modules[rel] = g
        return g

    def rule(self, implementation, attrs=None, test=False, **unused):
        def instantiate(name, **kw):
            return self.analyse(implementation, attrs or {}, test, name, kw)
        return instantiate

    def analyse(self, implementation, attrs, test, name, kw):
        common = {"tags", "visibility", "testonly", "size", "timeout", "flaky", "local", "args", "data", "deprecation", "shard_count"}
        for k in kw:
            if k not in attrs and k not in common:
                raise Failed("%s: no such attribute '%s'" % (name, k))
        a, file, files, executable, outputs = {}, {}, {}, {}, {}
        for k, spec in attrs.items():
            if k not in kw and spec.kw.get("mandatory"):
                raise Failed("%s: missing value for mandatory attribute '%s'" % (name, k))
            none = {"string": "", "bool": False, "int": 0, "string_list": [], "label_list": [], "output_list": []}.get(spec.kind)
            v = kw.get(k, spec.kw.get("default", none))
            want = {"string": str, "bool": bool, "int": int}.get(spec.kind)
            if want and (not isinstance(v, want) or (want is int and isinstance(v, bool))):
                raise Failed("%s: attribute '%s' has a wrong type: %r" % (name, k, v))
            if spec.kw.get("values") and v not in spec.kw["values"]:
                raise Failed("%s: invalid value in '%s' attribute: %r" % (name, k, v))
            if spec.kind == "label" and v is not None:
                s = self.resolve(v)
                if s in self.tools:
                    tool = self.tools[s]
                    fs = [tool]
                    executable[k] = tool
                    a[k] = Target(fs)
                elif s in self.settings:
                    a[k], fs = Target([], self.settings[s]), []
                else:
                    fs = [self.file(s)] if s in self.files else []
                    a[k] = Target(fs)
                files[k] = fs
                if spec.kw.get("allow_single_file") and fs:
                    file[k] = fs[0]
            elif spec.kind == "label_list":
                files[k] = [self.file(x) for x in v]
                a[k] = [Target([f]) for f in files[k]]
            elif spec.kind == "label_keyed_string_dict":
                a[k] = {Target([self.file(x)]): y for x, y in v.items()}
                files[k] = [t.files.to_list()[0] for t in a[k]]
            elif spec.kind in ("output_list", "output"):
                outs = []
                for x in v if spec.kind == "output_list" else [v]:
                    f = File(self, self.package, x, generated=True)
                    self.files[self.resolve(x)] = f
                    outs.append(f)
                outputs[k] = outs if spec.kind == "output_list" else outs[0]
                a[k] = v
            else:
                a[k] = v
        actions = Actions(self)
        ctx = Struct(attr=Struct(**{**{"args": kw.get("args", [])}, **a}), file=Struct(**file), files=Struct(**files), executable=Struct(**executable),
                     outputs=Struct(**outputs), label=Struct(name=name, package=self.package, workspace_name=""), actions=actions,
                     build_file_path=self.package + "/BUILD.bazel", workspace_name=self.workspace, bin_dir=Struct(path="bazel-out/k8-fastbuild/bin"),
                     runfiles=lambda files=(), transitive_files=None, **kw: Struct(files=list(files) + (transitive_files.to_list() if transitive_files else []), merge=lambda o: o))
        result = implementation(ctx)
        infos = result if isinstance(result, list) else [result]
        for info in infos:
            if info is not None and test and getattr(info, "executable", None):
                self.tests[name] = (info.executable, list(info.runfiles.files))
        self.targets[name] = infos
        return None

    # ---- running ----

    def runfiles(self, name):
        """Lays out the runfiles of a test -> (script, directory of all repositories)."""
        exe, files = self.tests[name]
        top = os.path.join(self.root, "runfiles", name)
        os.makedirs(os.path.join(top, self.workspace), exist_ok=True)
        for f in files:
            p = os.path.join(top, f.runfile)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.lexists(p):
                os.symlink(f.abs, p)
        return exe.abs, top

    def run_test(self, name, mode="dir", env=None):
        """Runs a test the way Bazel does -> (exit code, stdout, stderr)."""
        script, top = self.runfiles(name)
        e = dict(PATH=os.environ["PATH"], HOME="/nonexistent", LC_ALL="C.UTF-8", TEST_WORKSPACE=self.workspace, TEST_SRCDIR=top, TEST_TMPDIR=self.root)
        if mode == "dir":
            e["RUNFILES_DIR"] = top
        elif mode == "manifest":
            e["RUNFILES_MANIFEST_ONLY"] = "1"
            e["RUNFILES_MANIFEST_FILE"] = top + ".MANIFEST"
            with open(e["RUNFILES_MANIFEST_FILE"], "w") as f:
                for x in self.tests[name][1]:
                    f.write("%s %s\n" % (x.runfile, x.abs))
        e.update(env or {})
        p = subprocess.run(["bash", script], cwd=os.path.join(top, self.workspace), env=e, stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
        return p.returncode, p.stdout, p.stderr


class Actions:
    def __init__(self, world):
        self.world = world

    def declare_file(self, name, sibling=None):
        f = File(self.world, self.world.package, name, generated=True)
        os.makedirs(os.path.dirname(f.abs), exist_ok=True)
        return f

    def args(self):
        return Args()

    def write(self, output, content, is_executable=False, **unused):
        os.makedirs(os.path.dirname(output.abs), exist_ok=True)
        with open(output.abs, "w", encoding="utf-8") as f:
            f.write("\n".join(flat([content])) if isinstance(content, Args) else content)
        if is_executable:
            os.chmod(output.abs, 0o755)

    def expand_template(self, template, output, substitutions=None, is_executable=False, **unused):
        text = open(template.abs, encoding="utf-8").read()
        for k, v in (substitutions or {}).items():
            text = text.replace(k, v)
        self.write(output, text, is_executable)

    def prepare(self, outputs):
        for o in outputs:
            os.makedirs(os.path.dirname(o.abs), exist_ok=True)

    def finish(self, p, outputs):
        if p.returncode != 0:
            raise Failed("action failed: " + p.stderr.decode("utf-8", "replace"))
        for o in outputs:
            if not os.path.exists(o.abs):
                raise Failed("action did not create " + o.path)

    def run(self, outputs, executable, arguments=(), **unused):
        self.prepare(outputs)
        exe = executable.abs if isinstance(executable, File) else executable
        p = subprocess.run([exe] + flat(arguments), cwd=self.world.execroot, stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
        self.finish(p, outputs)

    def run_shell(self, outputs, command, arguments=(), **unused):
        self.prepare(outputs)
        p = subprocess.run(["bash", "-c", command, "bash"] + flat(arguments), cwd=self.world.execroot, stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
        self.finish(p, outputs)


class Tool(File):
    """An executable that exists already, seen by rules as a file."""

    def __init__(self, world, pkg, name, exe, repo=""):
        File.__init__(self, world, pkg, name, generated=True, repo=repo)
        self.abs = exe
