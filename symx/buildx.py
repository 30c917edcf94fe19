"""Builds a scratch copy of the package under test (extensions included) from
its current source.  Run with the target interpreter: python buildx.py ROOT DEST"""
import ast
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys
import sysconfig

SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')


def extensions(root):
    with open(os.path.join(root, 'setup.py'), 'rb') as f:
        tree = ast.parse(f.read(), 'setup.py')
    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and getattr(node.func, 'id', '') == 'Extension':
            a = dict(zip(('name', 'sources'), node.args))
            a.update((k.arg, k.value) for k in node.keywords)
            yield ast.literal_eval(a['name']), ast.literal_eval(a['sources'])


def build(dest, name, sources):
    module = name.rpartition('.')[2]
    work = os.path.join(dest, '_work_' + module)
    os.makedirs(work)
    cmd = [sys.executable, '-m', 'numpy.f2py', '-c', '--backend', 'meson', '--build-dir', os.path.join(work, 'meson')]
    cmd += ['-I' + os.path.join(dest, d) for d in sorted({os.path.dirname(s) for s in sources})]
    cmd += ['-m', module] + [os.path.join(dest, s) for s in sources]
    run = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    built = os.path.join(work, module + SUFFIX)
    if run.returncode or not os.path.exists(built):
        return name, run.stdout[-3000:]
    os.replace(built, os.path.join(dest, name.replace('.', '/') + SUFFIX))
    shutil.rmtree(work, ignore_errors=True)
    return name, None


def main(root, dest):
    shutil.copytree(os.path.join(root, 'magpie'), os.path.join(dest, 'magpie'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc'))
    ok = True
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for name, err in ex.map(lambda a: build(dest, *a), list(extensions(root))):
            if err:
                print('build of %s failed:\n%s' % (name, err))
                ok = False
    return 0 if ok else 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[2]))
