"""C06-C07: file system wrappers.  The driver runs as an unprivileged user in a directory of its own below /tmp"""
import os
import shutil
import tempfile

from lib import vf
from lib.vf import hexs


def exe(long=False):
    return vf.build("filesystem-long" if long else "filesystem", "filesystem.cc", ["filesystem"], flags=["-DLIBDCP_WINDOWS"] if long else [])


class Scratch:
    """A directory that the driver's user owns"""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vrf-fs.", dir="/tmp")
        os.chmod(self.d, 0o755)
        if os.getuid() == 0:
            os.chown(self.d, 65534, 65534)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# a tree with something of everything
TREE = ["put @/a 6161", "touch @/a 1000000000", "mkdir @/b", "put @/b/a 626261", "mkdir @/b/c", "symlink b @/d", "symlink nowhere @/e", "symlink f @/f", "link @/a @/g",
        "symlink @/a @/h", "mkdir @/k", "mkdir @/k/l", "put @/k/l/m 6d", "symlink ../b/a @/k/n", "symlink b/c @/q", "put @/z -"]


def call(op, ec, form, *paths):
    return "%s %s %d %s" % (op, "e" if ec else "t", form, " ".join(paths))


EC_FORMS = {"exists", "file_size", "last_write_time", "create_directory", "create_directories", "remove", "remove_all", "rename", "create_hard_link", "copy_file"}
ONE = ["exists", "is_directory", "is_regular_file", "is_empty", "file_size", "hard_link_count", "last_write_time", "space", "create_directory", "create_directories", "remove",
       "remove_all", "canonical", "absolute", "list", "list_all"]
TWO = ["rename", "create_hard_link", "create_symlink", "copy_file", "copy"]
LONG_EXCLUDED = {"create_symlink", "absolute", "chdir", "cwd"}


def forms(op):
    """(error code form, variant)"""
    r = [(False, 0)] if op != "create_symlink" else [(True, 0)]
    if op in EC_FORMS or op == "list":
        r.append((True, 0))
    if op in ("list", "list_all"):
        r += [(False, 1), (False, 2)]
    if op == "copy_file":
        r += [(False, 1), (False, 2)]
    return r


def usable(op, paths):
    """remove and rename of . and .. are not specified; create_directories of something beyond . and .. is enough"""
    for p in paths:
        last = p.split("/")[-1]
        if last in (".", "..", "@") and op in ("remove", "remove_all", "rename", "create_directory", "create_hard_link", "create_symlink", "copy", "copy_file"):
            return False
    return True


def rand_path(r, abs_only, names="abcdefghkqz"):
    n = r.choice([1, 1, 1, 2, 2, 3, 4])
    c = []
    depth = 0
    for _ in range(n):
        x = r.random()
        if x < .08:
            c.append(".")
        elif x < .18 and depth > 0:
            # never above the root: a link may lead up, but none leads to the root's parent
            c.append("..")
            depth -= 1
        else:
            c.append(r.choice(names))
            depth += 1
    if not abs_only and r.random() < .3 and ".." not in c:
        return "/".join(c)
    return "@/" + "/".join(c)


def rand_history(r, long):
    s = list(TREE) if r.random() < .6 else ["put @/a 61", "mkdir @/b", "mkdir @/b/c"]
    ops = [x for x in ONE + TWO * 2 + ["create_directory", "create_directories", "chdir", "cwd"] if not (long and x in LONG_EXCLUDED)]
    for _ in range(r.randint(5, 25)):
        op = r.choice(ops)
        ps = [rand_path(r, long) for _ in range(2 if op in TWO else 1)]
        if op == "remove_all" and r.random() < .5:
            ps = ["@/" + r.choice("abk") + "/" + r.choice("abc")]
        if op == "cwd":
            ps = ["."]
        if op == "create_symlink":
            # links that do not lead to the root or above it
            ps[0] = r.choice(["@/a", "@/b", "@/b/c", "a", "b", "c", "k", "zz", "@/k/l", "b/a"])
        if not usable(op, ps):
            continue
        ec, form = r.choice(forms(op) if op in ONE + TWO else [(False, 0)])
        s.append(call(op, ec, form, *ps))
    return s


def c06(ctx):
    ctx.design("MCFileSystem")
    plain, lng = exe(), exe(True)
    r = ctx.rng
    with Scratch() as d:
        cases = ctx.generate("GenFileSystem")
        for mode, e in (("plain", plain), ("long", lng)):
            scripts = []
            for c in cases:
                op, ps = c["call"], c["paths"]
                if (mode == "long" and (op in LONG_EXCLUDED or any(p[0] != "@" for p in ps))) or not usable(op, ps):
                    continue
                for ec, form in forms(op):
                    scripts.append(TREE + [call(op, ec, form, *ps)])
            if mode == "plain":
                for p in ["@/b", "@/d", "@/b/c", "@/k/l", "@/a", "@/x", "@/f", "@/q"]:
                    scripts.append(TREE + [call("chdir", False, 0, p), call("cwd", False, 0, "."), call("exists", False, 0, "a"), call("absolute", False, 0, "a/../b"), *([call("canonical", False, 0, "../b")] if p in ("@/b", "@/d", "@/b/c", "@/k/l", "@/q") else []), call("list", False, 0, ".")])
            ctx.conform(e, "FileSystemTrace", scripts, args=[d, mode], what="spec-enumerated, %s paths" % mode)
            ctx.conform(e, "FileSystemTrace", [rand_history(r, mode == "long") for _ in range(ctx.n(1500, 20000))], args=[d, mode], what="random histories, %s paths" % mode)
            texts = ["/a/b", "a", "a/b.c", "/", "\\\\?\\/a/b", "\\\\server\\share\\x", "\\x", "/a.b/c", "x.y.z", "\\\\", "/\\\\?\\", "a b.mxf", "/very/" + "long/" * 80 + "path.xml", "\\\\?\\", "./x", "../y.z"]
            texts += ["".join(r.choice("ab./\\?") for _ in range(r.randint(1, 9))) for _ in range(300)]
            s = []
            for t in texts:
                if not t.startswith("//"):
                    # what // at the start means is up to the implementation
                    s.append("fix " + hexs(t))
                s.append("unfix " + hexs(t))
                name = t.split("/")[-1]
                if name and not name.startswith(".") and "\\" not in t:
                    s.append("extension " + hexs(t))
                    for x in ("", "xml", ".xml", "a.b"):
                        s.append("change_extension %s %s" % (hexs(t), hexs(x)))
            ctx.conform(e, "FileSystemTrace", [[x] for x in s], args=[d, mode], what="paths as text, %s paths" % mode)
    ctx.assumptions.append("every call is compared with the model of the operation on POSIX; the decorated-path build runs on POSIX too, in a world where only decorated paths lead anywhere")
    return ctx.finish("model_checking", rule="every call of every form on every path, and pair of paths, of a tree with files, directories, hard links and links to files, directories, themselves and nothing; random histories")


def c07(ctx):
    ctx.design("MCFileSystem", "MCFileSystemWeak.cfg")
    e = exe()
    r = ctx.rng
    with Scratch() as d:
        scripts = []
        for c in ctx.generate("GenWeak"):
            scripts.append(TREE + [x for p in c["paths"] for x in ["weak " + p]])
        # from other directories
        for w in ("@/b", "@/k/l", "@/b/c"):
            scripts.append(TREE + [call("chdir", False, 0, w)] + ["weak " + p for p in ("a", ".", "./.", "..", "../a", "x", "x/y/..", "../d/..", "../d/../a", "./../b//c/", "../k/n/x", "x/../../d/c/../..", "../q/..", "../q/../..")])
        for _ in range(ctx.n(1500, 20000)):
            s = list(TREE)
            for _ in range(12):
                p = rand_path(r, False, "abcdhkqxlm")
                if r.random() < .2:
                    p = p.replace("/", "//", r.randint(1, 3))
                if r.random() < .2:
                    p += "/"
                s.append("weak " + p)
            scripts.append(s)
        ctx.conform(e, "FileSystemTrace", scripts, args=[d, "plain"], what="within a tree")
        import itertools
        s = []
        for n in range(1, 6):
            for c in itertools.product(("..", ".", "vrf_none"), repeat=n):
                s.append("weak /" + "/".join(c))
        ctx.conform(e, "FileSystemTrace", [s[i:i + 20] for i in range(0, len(s), 20)], args=[d, "root"], what="at the root")
    return ctx.finish("model_checking", rule="all paths of up to four components over the names of a tree with links, '.', '..' and missing names, from several current directories; at the root all of up to five; random ones with repeated and trailing slashes")
