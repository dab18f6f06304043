"""Builds PyGnome's native part from /repo's working tree, outside /repo.

The result is an *overlay*: a directory whose ``gnome`` package is a tree of
symlinks to /repo/py_gnome/gnome plus the freshly built extension modules.
Nothing is written to /repo or /opt/vp.  Builds are cached by the content hash of
every input (lib_gnome, *.pyx, *.pxd, geometry/*.c, CMakeLists), so a cached build
is always the build of the current tree.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'py_gnome')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')


class BuildError(Exception):
    pass


def native_inputs():
    out = []
    for top, exts in ((os.path.join(SRC, 'lib_gnome'), None),
                      (os.path.join(SRC, 'cmake'), None),
                      (os.path.join(SRC, 'gnome'),
                       ('.pyx', '.pxd', '.c', '.cpp', '.h', '.pxi'))):
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                if exts is None or f.endswith(exts):
                    out.append(os.path.join(d, f))
    out.append(os.path.join(SRC, 'CMakeLists.txt'))
    return out


def native_hash():
    h = hashlib.sha256()
    for p in native_inputs():
        h.update(os.path.relpath(p, SRC).encode() + b'\0')
        try:
            with open(p, 'rb') as f:
                h.update(f.read())
        except OSError:
            pass
        h.update(b'\1')
    return h.hexdigest()[:20]


def _build(dest):
    env = dict(os.environ)
    env['PATH'] = '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.pop('PYTHONPATH', None)
    bld = tempfile.mkdtemp(prefix='verif-bld-')
    log = []
    try:
        for cmd in (
            ['cmake', '-S', SRC, '-B', bld, '-G', 'Ninja',
             '-DCMAKE_BUILD_TYPE=Debug', '-DCMAKE_CXX_FLAGS=-O0 -g0 -w',
             '-DCMAKE_C_FLAGS=-O0 -g0 -w', '-DSKBUILD_PROJECT_NAME=gnome',
             '-DPython_EXECUTABLE=/opt/venv/bin/python',
             '-DCMAKE_INSTALL_PREFIX=' + dest],
            ['cmake', '--build', bld],
            ['cmake', '--install', bld],
        ):
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            log.append(r.stdout)
            if r.returncode:
                raise BuildError('%s failed:\n%s' % (cmd, r.stdout[-4000:]))
    finally:
        shutil.rmtree(bld, ignore_errors=True)


def native_install():
    """directory holding the installed extension modules of the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = native_hash()
        dest = os.path.join(CACHE, 'native-' + key)
        if not os.path.exists(os.path.join(dest, '.done')):
            shutil.rmtree(dest, ignore_errors=True)
            # keep the cache small
            old = sorted((d for d in os.listdir(CACHE)
                          if d.startswith('native-')),
                         key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
            for d in old[:-3]:
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
            _build(dest)
            open(os.path.join(dest, '.done'), 'w').close()
        os.utime(dest)
        return dest


def rand_feeder():
    """shared object that answers rand() with given values (preloaded in replays)"""
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, 'symex', 'crand.c')
    with open(src, 'rb') as f:
        out = os.path.join(CACHE, 'crand-%s.so' % hashlib.sha256(f.read()).hexdigest()[:12])
    if not os.path.exists(out):
        tmp = '%s.%d' % (out, os.getpid())
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, src], check=True)
        os.rename(tmp, out)
    return out


def make_overlay(dest):
    """dest/gnome = symlinks to the current sources + built modules"""
    inst = native_install()
    root = os.path.join(SRC, 'gnome')
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x != '__pycache__']
        rel = os.path.relpath(d, root)
        out = os.path.join(dest, 'gnome', rel) if rel != '.' else os.path.join(dest, 'gnome')
        os.makedirs(out, exist_ok=True)
        for f in files:
            if f.endswith(('.so', '.pyc')):
                continue
            os.symlink(os.path.join(d, f), os.path.join(out, f))
    for d, dirs, files in os.walk(inst):
        rel = os.path.relpath(d, inst)
        for f in files:
            if f == '.done':
                continue
            out = os.path.join(dest, rel)
            os.makedirs(out, exist_ok=True)
            t = os.path.join(out, f)
            if os.path.lexists(t):
                os.unlink(t)
            shutil.copy2(os.path.join(d, f), t)
    return dest


if __name__ == '__main__':
    d = sys.argv[1]
    make_overlay(d)
    print(d)
