"""Run the mirfacts driver over /repo's crate under cargo, once per feature configuration."""
import os, sys, json, subprocess, hashlib, glob, shutil, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, '.build')
REPO = os.environ.get('VERIF_REPO', '/repo')
CONFIGS = ['default', 'cow_string', 'boxed_string', 'binary_string']
CRATE = 'mqtt_bytes_v5'

class ExtractError(Exception):
    pass

def env():
    e = dict(os.environ)
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'RUSTC'):
        e.pop(k, None)
    e['RUST_BACKTRACE'] = '0'
    return e

def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = os.path.join(BUILD, 'mirfacts.sha')
    exe = os.path.join(BUILD, 'mirfacts')
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    r = subprocess.run(['rustc', '+nightly', '-O', '--edition', '2021', '--cap-lints', 'allow', src, '-o', exe],
                       env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError('driver build failed:\n' + r.stderr[-4000:])
    open(stamp, 'w').write(h)
    return exe

def extract_one(cfg, outdir, repo=None):
    repo = repo or REPO
    exe = build_driver()
    tgt = os.path.join(BUILD, 'target-' + cfg)
    e = env()
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=e, capture_output=True, text=True).stdout.strip()
    out = os.path.join(outdir, cfg + '.json')
    if os.path.exists(out):
        os.remove(out)
    e.update({'RUSTC_WORKSPACE_WRAPPER': exe, 'LD_LIBRARY_PATH': sysroot + '/lib',
              'MIRFACTS_CRATE': CRATE, 'MIRFACTS_OUT': out,
              'MIRFACTS_STOPS': os.path.join(HERE, 'stops.txt'),
              'CARGO_TARGET_DIR': tgt, 'CARGO_INCREMENTAL': '0'})
    # cargo's freshness cache would skip the wrapper: drop this crate's fingerprints
    for pat in ('debug/.fingerprint/mqtt-bytes-v5-*', 'debug/build/mqtt-bytes-v5', 'debug/build/mqtt-bytes-v5-*'):
        for d in glob.glob(os.path.join(tgt, pat)):
            shutil.rmtree(d, ignore_errors=True)
    cmd = ['cargo', '+nightly', 'check', '--offline', '--locked', '--lib', '--manifest-path', os.path.join(repo, 'Cargo.toml')]
    if cfg != 'default':
        cmd += ['--features', cfg]
    r = subprocess.run(cmd, env=e, capture_output=True, text=True, cwd=repo)
    if r.returncode != 0 or not os.path.exists(out):
        raise ExtractError('cargo check (%s) failed:\n%s' % (cfg, r.stderr[-4000:]))
    return out

def extract(configs, outdir, repo=None):
    outdir = os.path.abspath(outdir)
    os.makedirs(outdir, exist_ok=True)
    build_driver()
    with ThreadPoolExecutor(len(configs)) as ex:
        outs = list(ex.map(lambda c: extract_one(c, outdir, repo), configs))
    return dict(zip(configs, outs))

if __name__ == '__main__':
    t = time.time()
    print(extract(sys.argv[2:] or CONFIGS, sys.argv[1]), time.time() - t)
