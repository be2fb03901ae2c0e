"""Builds the real VM (amanda/vm) from /repo's working tree in a scratch
directory and runs compiled modules on it.

The crates pinned in Cargo.lock are not available offline, so the scratch copy
relaxes the two version requirements; no source file is touched."""
import os, subprocess, tempfile, shutil, atexit, re

REPO = os.environ.get("AMA_REPO", "/repo")
_RUNNER_C = r'''
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
int main(int argc,char**argv){
  struct rlimit r={0,0}; setrlimit(RLIMIT_CORE,&r);
  struct rlimit m={3ul<<30,3ul<<30}; setrlimit(RLIMIT_AS,&m);
  struct rlimit c={20,20}; setrlimit(RLIMIT_CPU,&c);
  void*h=dlopen(argv[1],RTLD_NOW); if(!h){fprintf(stderr,"%s\n",dlerror());return 98;}
  unsigned char(*f)(unsigned char*,unsigned)=(unsigned char(*)(unsigned char*,unsigned))dlsym(h,"run_module");
  FILE*fp=fopen(argv[2],"rb"); if(!fp)return 97;
  fseek(fp,0,SEEK_END); long n=ftell(fp); rewind(fp);
  unsigned char*b=malloc(n+1); if(fread(b,1,n,fp)!=(size_t)n)return 96;
  int rc=f(b,(unsigned)n); fflush(stdout); return rc;
}
'''
_DIR = None


class VMBuildError(Exception):
    pass


def scratch():
    """scratch directory private to this process tree, removed at exit"""
    global _DIR
    if _DIR is None:
        _DIR = tempfile.mkdtemp(prefix="amavm")
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_DIR, ignore_errors=True)
        atexit.register(rm)
    return _DIR


_BUILT = None


def build(profile="dev"):
    """-> (runner path, lib path)"""
    global _BUILT
    if _BUILT:
        return _BUILT
    d = scratch()
    vm = os.path.join(d, "vm")
    shutil.copytree(os.path.join(REPO, "amanda/vm"), vm,
                    ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    toml = os.path.join(vm, "Cargo.toml")
    s = open(toml).read()
    s = re.sub(r'unicode-segmentation\s*=.*', 'unicode-segmentation = "1"', s)
    s = re.sub(r'rustc-hash\s*=.*', 'rustc-hash = "2"', s)
    open(toml, "w").write(s)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), RUSTFLAGS="-Awarnings")
    cmd = ["cargo", "build", "--offline", "--quiet"]
    sub = "debug"
    if profile == "release":
        cmd.append("--release")
        sub = "release"
    p = subprocess.run(cmd, cwd=vm, env=env, capture_output=True, text=True)
    lib = os.path.join(d, "target", sub, "libamanda.so")
    if p.returncode != 0 or not os.path.exists(lib):
        raise VMBuildError(p.stderr[-3000:])
    rc = os.path.join(d, "runner.c")
    open(rc, "w").write(_RUNNER_C)
    run = os.path.join(d, "runner")
    subprocess.run(["gcc", "-O1", "-o", run, rc, "-ldl"], check=True)
    _BUILT = (run, lib)
    return _BUILT


def run(mod_bytes, stdin="", timeout=60):
    """-> (returncode, stdout, stderr); a VM panic shows as a negative or 134-ish code"""
    runner, lib = build()
    fd, p = tempfile.mkstemp(dir=scratch(), suffix=".bin")
    with os.fdopen(fd, "wb") as f:
        f.write(mod_bytes)
    try:
        r = subprocess.run([runner, lib, p], input=stdin.encode("utf8"), capture_output=True, timeout=timeout, env=dict(os.environ, RUST_BACKTRACE="0"))
        return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""
    finally:
        os.unlink(p)


def peak(mod_bytes):
    """peak resident memory of a run, in kB"""
    runner, lib = build()
    fd, p = tempfile.mkstemp(dir=scratch(), suffix=".bin")
    with os.fdopen(fd, "wb") as f:
        f.write(mod_bytes)
    try:
        q = subprocess.Popen([runner, lib, p], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        _, _, ru = os.wait4(q.pid, 0)
        q.returncode = 0
        return ru.ru_maxrss
    finally:
        os.unlink(p)
