"""Builds the repository's `_memory` extension from the current working tree (deterministic std::thread)."""
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

from . import proc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MOD = "unidist.core.backends.mpi.core._memory"
CACHE = os.path.join(VERIF, ".build")


def sources():
    d = os.path.join(proc.REPO, "unidist/core/backends/mpi/core/memory")
    return d, sorted(os.listdir(d))


def build():
    d, files = sources()
    h = hashlib.sha256()
    for f in files + []:
        with open(os.path.join(d, f), "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read())
    hdr = os.path.join(VERIF, "native", "simthread.h")
    with open(hdr, "rb") as fh:
        h.update(fh.read())
    h.update(sys.version.encode())
    key = h.hexdigest()[:16]
    so = os.path.join(CACHE, f"_memory-{key}.so")
    if not os.path.exists(so):
        os.makedirs(CACHE, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=CACHE)
        try:
            for f in files:
                shutil.copy(os.path.join(d, f), tmp)
            from Cython.Compiler.Main import compile as cy

            cwd = os.getcwd()
            os.chdir(tmp)
            try:
                r = cy("_memory.pyx", cplus=True, full_module_name=MOD)
                if r.num_errors:
                    raise RuntimeError("cython failed")
            finally:
                os.chdir(cwd)
            inc = sysconfig.get_paths()["include"]
            out = os.path.join(tmp, "m.so")
            cmd = ["g++", "-O0", "-w", "-std=c++17", "-shared", "-fPIC", "-I", tmp, "-I", inc, "-include", hdr, os.path.join(tmp, "_memory.cpp"), "-o", out]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:  # code the stand-in does not cover: use real threads
                cmd = [c for c in cmd if c not in ("-include", hdr)]
                p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                raise RuntimeError("building _memory failed:\n" + p.stderr[-3000:])
            os.replace(out, so)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return so


def load():
    if MOD in proc.NATIVE:
        return proc.NATIVE[MOD]
    so = build()
    spec = importlib.util.spec_from_file_location(MOD, so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    proc.NATIVE[MOD] = m
    proc.NATIVE_SO = so
    return m
