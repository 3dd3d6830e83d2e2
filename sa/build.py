"""Builds the THIR driver (once) and dumps /repo's current source with it."""
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ELM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
DRIVER = os.path.join(BUILD, 'driver', 'release', 'thirdump')


class BuildFailed(Exception):
    pass


def sh(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode('utf8', 'replace')


def driver():
    src = os.path.join(VERIF, 'driver', 'src', 'main.rs')
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
        return
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'driver'))
    rc, out = sh(['cargo', '+nightly', 'build', '--release', '--offline'], os.path.join(VERIF, 'driver'), env)
    if rc or not os.path.exists(DRIVER):
        raise BuildFailed('the THIR driver does not build:\n' + out)


def dump(out):
    """Type-check every target of the package with the driver in place of rustc;
    one JSON file per crate in `out`.  The target directory is new each time, so
    no crate is skipped as fresh."""
    driver()
    rc, root = sh(['rustc', '+nightly', '--print', 'sysroot'], REPO, dict(os.environ))
    tgt = tempfile.mkdtemp(prefix='tgt-', dir=BUILD)
    try:
        env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(root.strip(), 'lib'),
                   RUSTC_WORKSPACE_WRAPPER=DRIVER, THIRDUMP_OUT=out, CARGO_TARGET_DIR=tgt)
        env.pop('RUSTFLAGS', None)
        rc, log = sh(['cargo', '+nightly', 'check', '--offline', '--locked', '--workspace'], REPO, env)
    finally:
        shutil.rmtree(tgt, ignore_errors=True)
    if rc:
        raise BuildFailed('cargo check failed:\n' + log[-4000:])
    for n in ('elm_parser', 'elm_parser_check', 'elm_parser_dump'):
        if not os.path.exists(os.path.join(out, n + '.json')):
            raise BuildFailed('no dump of crate %s' % n)


if __name__ == '__main__':
    driver()
