"""Snapshot /repo's working tree into a scratch directory and compile the
native extensions there (plain, with AddressSanitizer + UBSan, or counting executed basic blocks)."""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('PDS_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'

# (destination, sources), relative to the package directory
EXTENSIONS = [
    ('utils/_backend/cpp/_nodes', ['utils/_backend/cpp/nodes.cpp']),
    ('linear_data_structures/_backend/cpp/_arrays',
     ['linear_data_structures/_backend/cpp/arrays/arrays.cpp']),
    ('linear_data_structures/_backend/cpp/_algorithms',
     ['linear_data_structures/_backend/cpp/algorithms/algorithms.cpp']),
    ('miscellaneous_data_structures/_backend/cpp/_stack',
     ['miscellaneous_data_structures/_backend/cpp/stack/stack.cpp']),
    ('trees/_backend/cpp/_trees', ['trees/_backend/cpp/trees.cpp']),
    ('graphs/_backend/cpp/_graph',
     ['graphs/_backend/cpp/graph.cpp', 'graphs/_backend/cpp/algorithms.cpp',
      'utils/_backend/cpp/graph_utils.cpp']),
]


class BuildError(Exception):
    pass


def _py(expr):
    return subprocess.run([PYTHON, '-c', 'import sysconfig;print(%s)' % expr],
                          capture_output=True, text=True, check=True).stdout.strip()


COUNTER = '''
unsigned long long pds_blocks;
void __sanitizer_cov_trace_pc(void) { ++pds_blocks; }
'''


def build(dest, flavour='plain'):
    """Copies the package to dest/pydatastructs and builds its extensions."""
    pkg = os.path.join(dest, 'pydatastructs')
    if not os.path.isdir(os.path.join(REPO, 'pydatastructs')):
        raise BuildError('no pydatastructs package in %s' % REPO)
    shutil.copytree(os.path.join(REPO, 'pydatastructs'), pkg, symlinks=False,
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', 'tests', '*.pyc'))
    inc = _py("sysconfig.get_paths()['include']")
    suffix = _py("sysconfig.get_config_var('EXT_SUFFIX')")
    flags = ['-std=c++17', '-g', '-fPIC', '-w', '-I' + inc,
             '-I' + os.path.join(pkg, 'utils/_backend/cpp')]
    link = ['-shared']
    if flavour == 'asan':
        flags += ['-O0', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                  '-fno-sanitize=vptr']
        link += ['-fsanitize=address,undefined']
    elif flavour == 'count':
        # every basic block executed adds one to a counter the worker reads
        with open(os.path.join(dest, 'pdscount.c'), 'w') as f:
            f.write(COUNTER)
        lib = os.path.join(dest, 'libpdscount.so')
        r = subprocess.run(['gcc', '-O1', '-fPIC', '-shared', os.path.join(dest, 'pdscount.c'), '-o', lib],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(r.stderr)
        flags += ['-O0', '-fsanitize-coverage=trace-pc']
        link += ['-L' + dest, '-lpdscount', '-Wl,-rpath,' + dest]
    else:
        flags += ['-O0']
    jobs, links = [], []
    objdir = os.path.join(dest, 'obj')
    os.makedirs(objdir, exist_ok=True)
    for target, sources in EXTENSIONS:
        objs = []
        for i, src in enumerate(sources):
            path = os.path.join(pkg, src)
            if not os.path.exists(path):
                continue
            obj = os.path.join(objdir, '%s_%d.o' % (os.path.basename(target), i))
            objs.append(obj)
            jobs.append((['g++'] + flags + ['-c', path, '-o', obj], os.path.getsize(path)))
        links.append(['g++'] + link[:1] + objs + link[1:] + ['-o', os.path.join(pkg, target + suffix)])

    def run(cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, [c for c, _ in jobs]))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, links))
    shutil.rmtree(objdir)
    return pkg


def san_env():
    def lib(name):
        return subprocess.run(['g++', '-print-file-name=' + name], capture_output=True,
                              text=True).stdout.strip()
    return {
        'LD_PRELOAD': lib('libasan.so') + ' ' + lib('libubsan.so') + ' ' + lib('libstdc++.so.6'),
        'ASAN_OPTIONS': 'detect_leaks=0:halt_on_error=1:abort_on_error=1:'
                        'allocator_may_return_null=1:handle_segv=1:'
                        'quarantine_size_mb=64:symbolize=1',
        'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1',
        'PYTHONMALLOC': 'malloc',
    }


if __name__ == '__main__':
    import time
    t = time.time()
    build(sys.argv[1], *sys.argv[2:3])
    print(time.time() - t)
