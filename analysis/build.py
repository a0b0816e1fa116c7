"""Builds the MIR dumper and dumps /repo's current sources.

dump('program') / dump('cli') return the parsed dump.  The dump is always
regenerated from /repo's working tree; only third-party dependencies are
taken from the warm target directory.
"""
import fcntl, json, os, shutil, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SLASH_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
DRV_T = os.path.join(BUILD, 'driver')
DRV = os.path.join(DRV_T, 'release', 'mirdump')
TGT = os.path.join(BUILD, 'target')
# crates whose bodies the dump follows besides the analysed one ('' = all)
FOLLOW = {'program': '', 'cli': 'core,alloc,std,solana_slashing_program,spl_pod,bytemuck'}
CRATES = {'program': ('solana-slashing-program', 'solana_slashing_program', ['--lib']),
          'cli': ('solana-slashing-cli', 'spl_slashing', ['--bins'])}


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ('RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_INCREMENTAL',
              'RUSTC_WORKSPACE_WRAPPER', 'CARGO_PROFILE_DEV_DEBUG', 'CARGO_BUILD_TARGET',
              'CARGO_ENCODED_RUSTFLAGS', 'RUSTC', 'RUSTC_BOOTSTRAP'):
        e.pop(k, None)
    e['HOME'] = e.get('HOME') or '/root'
    if '/root/.cargo/bin' not in e.get('PATH', ''):
        e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e['CARGO_TERM_COLOR'] = 'never'
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=e, capture_output=True,
                             text=True).stdout.strip()
    e['LD_LIBRARY_PATH'] = sysroot + '/lib'
    return e


class _Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


def ensure_driver(env):
    _run(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', DRV_T], env,
         os.path.join(VERIF, 'driver'))


def dump_raw(which, out_dir=None):
    pkg, crate, sel = CRATES[which]
    env = _env()
    with _Lock():
        ensure_driver(env)
        out = out_dir or os.path.join(BUILD, 'dump-%s-%d' % (which, os.getpid()))
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        env.update(MIRDUMP_CRATES=crate, MIRDUMP_DIR=out, MIRDUMP_FOLLOW=FOLLOW[which],
                   MIRDUMP_STOP=os.path.join(VERIF, 'driver', 'stop-%s.txt' % which),
                   RUSTFLAGS='-Zalways-encode-mir', RUSTC_WORKSPACE_WRAPPER=DRV,
                   # cargo check does not link: a directory without the library
                   # spares the C++ build of rocksdb
                   ROCKSDB_LIB_DIR='/nonexistent', SNAPPY_LIB_DIR='/nonexistent',
                   LZ4_LIB_DIR='/nonexistent')
        # cargo's freshness cache would skip the wrapper; nothing of the
        # analysed crates is reused
        for d in glob.glob(os.path.join(TGT, 'debug', '*', 'solana-slashing-*')) + \
                glob.glob(os.path.join(TGT, 'debug', '.fingerprint', 'solana-slashing-*')) + \
                glob.glob(os.path.join(TGT, 'debug', 'incremental', '*')) + \
                glob.glob(os.path.join(TGT, 'debug', 'deps', '*solana_slashing*')):
            shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.unlink(d)
        _run(['cargo', '+nightly', 'check', '--offline', '--locked', '--target-dir', TGT, '-p', pkg] + sel,
             env, REPO)
        f = os.path.join(out, crate + '.json')
        if not os.path.exists(f):
            raise BuildError('no dump was written for ' + crate)
        return f


def dump(which):
    f = dump_raw(which)
    with open(f) as h:
        d = json.load(h)
    shutil.rmtree(os.path.dirname(f), ignore_errors=True)
    return d


if __name__ == '__main__':
    t = time.time()
    for w in sys.argv[1:] or ['program']:
        d = dump(w)
        print(w, 'functions', len(d['insts']), 'types', len(d['types']), 'after %.1fs' % (time.time() - t))
