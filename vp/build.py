"""Copy /repo's working tree to a scratch directory and build it there.

Nothing under /repo is written.  The returned directory holds
  <scratch>/pkg/CifFile -> <scratch>/repo/src   (put <scratch>/pkg on sys.path)
"""
import os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"
GEN = ["CifFile_module.py", "StarFile.py", "TypeContentsParser.py",
       "YappsStarParser_1_0.py", "YappsStarParser_1_1.py",
       "YappsStarParser_2_0.py", "YappsStarParser_STAR2.py",
       "drel/py_from_ast.py", "drel/drel_runtime.py"]


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["LANG"] = "C.UTF-8"
    e.pop("PYTHONPATH", None)
    return e


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (cmd, r.stdout.decode("utf8", "replace")[-4000:]))
    return r


def build(with_ext=True):
    scratch = tempfile.mkdtemp(prefix="vp_pycifrw_")
    try:
        dst = os.path.join(scratch, "repo")
        os.mkdir(dst)
        skip = shutil.ignore_patterns("*.so", "*.pyc", "__pycache__", "*.g",
                                      "parsetab.py", "parser.out", "build", ".git")
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(dst, "src"),
                        symlinks=True, ignore=skip)
        for f in os.listdir(REPO):
            p = os.path.join(REPO, f)
            if os.path.isfile(p) and (f.endswith((".py", ".toml", ".cfg", ".md", ".in"))
                                      or f in ("README", "LICENSE")):
                shutil.copy2(p, dst)
        src = os.path.join(dst, "src")
        for g in GEN:
            p = os.path.join(src, g)
            if os.path.exists(p):
                os.unlink(p)
        _run(["make", "-B", "-C", "src", "PYTHON=%s -W ignore" % PY,
              "CifFile_module.py", "StarFile.py", "Parsers"], dst)
        _run(["make", "-B", "-C", "src/drel", "package"], dst)
        for g in GEN:
            p = os.path.join(src, g)
            if not os.path.exists(p) or os.path.getsize(p) == 0:
                raise BuildError("not generated: " + g)
        if with_ext:
            _run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force"], dst)
        pkg = os.path.join(scratch, "pkg")
        os.mkdir(pkg)
        os.symlink(src, os.path.join(pkg, "CifFile"))
        # import once: ply writes drel/parsetab.py at first import
        _run([PY, "-W", "ignore", "-c",
              "import sys; sys.path.insert(0, %r)\n"
              "import CifFile, CifFile.StarFile\n"
              "from CifFile.drel import drel_lex, drel_ast_yacc, py_from_ast, drel_runtime\n"
              "assert CifFile.__file__.startswith(%r), CifFile.__file__\n" % (pkg, scratch)],
             scratch)
        return scratch
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise


if __name__ == "__main__":
    print(build())
