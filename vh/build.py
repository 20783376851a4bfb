"""Make the code under test importable from /repo's current working tree.

The Python sources are imported straight from /repo.  The C++ extension is compiled from
/repo/cpp unless the in-place build product carries a stamp that matches the current sources
byte for byte (the same stamp that the project's own build script writes).
"""
import hashlib, importlib.machinery, importlib.util, os, subprocess, sys, sysconfig

REPO = os.environ.get('VH_REPO', '/repo')
SO = 'coniii/samplers_ext.cpython-312-x86_64-linux-gnu.so'


def _sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def _stamp_matches():
    try:
        files = []
        for root, _, names in os.walk(os.path.join(REPO, 'cpp')):
            files += [os.path.relpath(os.path.join(root, f), REPO) for f in names]
        files += ['setup.py', 'LICENSE.txt']
        lines = ['%s  %s' % (_sha(os.path.join(REPO, f)), f)
                 for f in sorted(files, key=lambda x: x.encode())]
        lines += ['%s  %s' % (_sha(os.path.join(REPO, f)), f) for f in (SO, 'coniii/LICENSE.txt')]
        with open(os.path.join(REPO, 'build/samplers_ext.stamp')) as f:
            return f.read().split('\n')[:-1] == lines
    except OSError:
        return False


def extension(scratch):
    """Path of an extension module that corresponds to the current C++ sources."""
    if _stamp_matches():
        return os.path.join(REPO, SO)
    out = os.path.join(scratch, os.path.basename(SO))
    inc = ['-I' + sysconfig.get_paths()['include'], '-I/usr/include',
           '-I' + os.path.join(REPO, 'cpp')]
    srcs = sorted(os.path.join(REPO, 'cpp', f) for f in os.listdir(os.path.join(REPO, 'cpp'))
                  if f in ('samplers.cpp', 'py.cpp'))
    objs, procs = [], []
    for s in srcs:
        o = os.path.join(scratch, os.path.basename(s) + '.o')
        objs.append(o)
        procs.append(subprocess.Popen(['g++', '-std=c++11', '-O2', '-fPIC', '-w', '-c', s, '-o', o] + inc,
                                      stderr=subprocess.PIPE, text=True))
    for p in procs:
        err = p.communicate()[1]
        if p.returncode:
            raise RuntimeError('the C++ extension does not compile:\n' + err[-3000:])
    r = subprocess.run(['g++', '-shared', '-o', out] + objs + ['-L/usr/lib/x86_64-linux-gnu',
                       '-lboost_python312', '-lboost_numpy312'], stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise RuntimeError('the C++ extension does not link:\n' + r.stderr[-3000:])
    return out


def preload_extension(scratch):
    """Load the extension under the name by which the package imports it."""
    path = extension(scratch)
    name = 'coniii.samplers_ext'
    # the parent package imports the extension while it initialises, so put it there first
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_file_location(name, path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules[name] = mod
    return path


def load(scratch):
    preload_extension(scratch)
    import warnings
    warnings.simplefilter('ignore')
    import coniii
    assert os.path.realpath(coniii.__file__).startswith(os.path.realpath(REPO) + '/'), coniii.__file__
    from coniii import samplers
    if not samplers.IMPORTED_SAMPLERS_EXT:
        raise RuntimeError('the C++ extension was not imported by the package')
    return coniii
