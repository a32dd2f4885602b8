"""Builds /repo's current working tree into a private scratch directory.

The meson build directory normally has to be a direct child of /repo, because
the code generators use '../src/...' style paths.  Here the build directory is
SCRATCH/build and SCRATCH/{src,tools,...} are symlinks into /repo, so the very
same generators run on /repo's own files and nothing is written below /repo.
A from-scratch build takes a few seconds, so no state is reused between runs.
"""
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


def _env(extra=None):
    env = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONHOME", "CFLAGS", "CXXFLAGS", "LDFLAGS"):
        env.pop(k, None)
    env.update(CC="gcc", CXX="g++", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    env.update(extra or {})
    return env


def build(kind="release", log=None):
    """Returns (scratch_dir, site_dir)."""
    scratch = tempfile.mkdtemp(prefix="verif-ufl-")
    try:
        for n in sorted(os.listdir(REPO)):
            if n in ("build", ".git"):
                continue
            os.symlink(os.path.join(REPO, n), os.path.join(scratch, n))
        bd = os.path.join(scratch, "build")
        site = os.path.join(scratch, "site")
        opts = ["--prefix", os.path.join(bd, "install"), "--wrap-mode=nodownload",
                f"-Dpython.purelibdir={site}", f"-Dpython.platlibdir={site}",
                "-Dpython.bytecompile=-1"]
        if kind == "release":
            opts += ["--buildtype=release", "-Db_ndebug=if-release", "-Doptimization=3"]
        elif kind == "asan":
            opts += ["--buildtype=debugoptimized", "-Doptimization=1", "-Db_ndebug=true",
                     "-Db_sanitize=address", "-Db_lundef=false", "-Dwerror=false"]
        elif kind == "gcov":
            opts += ["--buildtype=debug", "-Doptimization=0", "-Db_ndebug=true",
                     "-Db_coverage=true", "-Dwerror=false"]
        else:
            raise BuildError(kind)
        for cmd in (["meson", "setup", bd, REPO] + opts,
                    ["ninja", "-C", bd],
                    ["meson", "install", "-C", bd, "--no-rebuild", "--quiet"]):
            p = subprocess.run(cmd, env=_env(), cwd=scratch, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=600)
            if p.returncode:
                raise BuildError(f"{' '.join(cmd)} failed:\n{p.stdout[-4000:]}")
        return scratch, site
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise


if __name__ == "__main__":
    print(*build(*sys.argv[1:]))
