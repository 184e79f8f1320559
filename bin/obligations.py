"""Contract obligations: Kani harnesses and Verus extractions."""
import os, re, json, time, threading, shutil, subprocess
G = {}
def setup(g): G.update(g); globals().update({k: g[k] for k in ('V','REPO','PID','TIER','SEED','CFG','WORK','HOOKS','log','left','make_hooks','run','violation','OBL','NOTES','build_driver','run_driver','DRV')})

FAILED = []   # (obligation, info)

def run_all():
    try:
        ks = CFG.get('kani', [])
        if TIER == 'quick': ks = [k for k in ks if not k.get('thorough')]
        vs = CFG.get('verus', [])
        ts = []
        if ks: ts.append(threading.Thread(target=kani_all, args=(ks,)))
        if vs: ts.append(threading.Thread(target=verus_all, args=(vs,)))
        [t.start() for t in ts]; [t.join() for t in ts]
    except Exception as e:
        NOTES.append(f'obligation runner error: {e!r}')

# ---------------------------------------------------------------- Kani
UNDEC = ('unwinding assertion', 'unsupported', 'is not currently supported', 'recursion unwinding')

def parse_kani(text):
    """harness -> dict(status, checks, failed=[(class,desc,loc)], time, cover)"""
    res = {}
    blocks = re.split(r'(?m)^(?:Thread \d+: )?Checking harness ', text)[1:]
    for b in blocks:
        name = re.match(r'(\S+?)\.\.\.', b)
        if not name: continue
        name = name.group(1).split('::')[-1]
        r = {'failed': [], 'checks': 0, 'time': 0.0, 'status': 'undecided', 'cover': None, 'text': b}
        m = re.search(r'VERIFICATION:- (\w+)', b)
        if m: r['status'] = 'discharged' if m.group(1) == 'SUCCESSFUL' else 'failed'
        m = re.search(r'\*\* (\d+) of (\d+) failed', b)
        if m: r['checks'] = int(m.group(2)); r['nfailed'] = int(m.group(1))
        m = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', b)
        if m: r['cover'] = (int(m.group(1)), int(m.group(2)))
        m = re.search(r'Verification Time: ([\d.]+)s', b)
        if m: r['time'] = float(m.group(1))
        for m in re.finditer(r'Failed Checks: (.*?)\n(?: File: (.*?)\n)?', b):
            r['failed'].append((m.group(1).strip(), (m.group(2) or '').strip()))
        for m in re.finditer(r'- Status: (FAILURE|UNDETERMINED)\n\s*- Description: "(.*?)"\n\s*- Location: (.*?)\n', b):
            if m.group(1) == 'FAILURE': r['failed'].append((m.group(2), m.group(3)))
        res[name] = r
    return res

def kani_cmd(crate, harnesses, extra=()):
    cmd = ['cargo', 'kani', '--offline'] if False else ['cargo', 'kani']
    cmd += ['-Z', 'stubbing', '-Z', 'function-contracts']
    for h in harnesses: cmd += ['--harness', h]
    return cmd + list(extra)

def kani_env(hd): return {'GRAVIOLA_VERIF_DIR': hd, 'CARGO_TARGET_DIR': f'{WORK}/kani', 'CARGO_NET_OFFLINE': 'true'}

def kani_all(ks):
    groups = {}
    for k in ks: groups.setdefault((k.get('crate', 'graviola'), k.get('dir', 'kani')), []).append(k)
    for (crate, d), g in groups.items():
        hd = f'{HOOKS}-{d}'
        make_hooks(hd, [f'{V}/props/{PID}/{d}'] + [f'{V}/hooks/lib/{x}' for x in CFG.get('kani_libs', [])])
        # one cargo-kani per batch: a timeout of one harness must not lose the others
        tmo = max(k.get('timeout', 120) for k in g)
        if TIER == 'thorough': tmo *= 4
        names = [k['harness'] for k in g]
        t = time.time()
        rc, o = run(kani_cmd(crate, names, ['-Z', 'unstable-options', '--harness-timeout', f'{tmo}s', '-j', '6', '--output-format', 'terse', '--exact'] if False else ['-Z', 'unstable-options', '--harness-timeout', f'{tmo}s', '-j', '6', '--output-format', 'terse']),
                    cwd=f'{REPO}/{crate}', env=kani_env(hd), timeout=max(60, min(left() - 60, 200 + tmo * (1 + len(names) // 6))))
        open(f'{WORK}/kani-{crate}-{d}.log', 'w').write(o)
        res = parse_kani(o)
        if not res: NOTES.append(f'Kani produced no result (harness no longer compiles against the source?): {o[-1200:]}')
        for k in g:
            r = res.get(k['harness'])
            ob = {'name': k['harness'], 'backend': 'kani/cbmc', 'status': 'undecided', 'checks': 1, 'time': 0.0, 'detail': ''}
            if k.get('bound'): ob['bound'] = k['bound']
            if r:
                ob.update(status=r['status'], checks=max(1, r['checks']), time=r['time'])
                if r['status'] == 'discharged' and r['cover'] and r['cover'][0] < r['cover'][1]:
                    ob['status'] = 'undecided'; ob['detail'] = f'vacuous: {r["cover"]} covers reached'
                if r['status'] == 'failed':
                    if 'CBMC failed' in r['text'] or 'timed out' in r['text'].lower() or 'Out of memory' in r['text']:
                        ob['status'] = 'undecided'; ob['detail'] = 'solver timeout/limit'
                    else:
                        ob['detail'] = '; '.join(f'{a} @ {b}' for a, b in r['failed'][:6])
                        real = [f for f in r['failed'] if not any(u in f[0] for u in UNDEC)]
                        und = [f for f in r['failed'] if any(u in f[0] for u in UNDEC)]
                        if und or not real: ob['status'] = 'undecided'
                        if real and not und: FAILED.append((ob, {'kind': 'kani', 'k': k, 'crate': crate, 'hd': hd, 'text': r['text'][-4000:], 'failed': real}))
                        elif real: FAILED.append((ob, {'kind': 'kani', 'k': k, 'crate': crate, 'hd': hd, 'text': r['text'][-4000:], 'failed': real, 'need_replay': True}))
            OBL.append(ob)

def playback(info):
    """concrete counterexample values for a failed harness -> bytes, or None"""
    rc, o = run(kani_cmd(info['crate'], [info['k']['harness']], ['-Z', 'concrete-playback', '--concrete-playback=print']),
                cwd=f'{REPO}/{info["crate"]}', env=kani_env(info['hd']), timeout=max(60, min(400, left() - 60)))
    outs = []
    for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', o, re.S):
        bs = bytearray()
        for v in re.finditer(r'(?m)^\s*vec!\[([\d, \n]*)\]', m.group(1)):
            bs += bytes(int(x) for x in re.findall(r'\d+', v.group(1)))
        outs.append(bytes(bs))
    return outs, o

def native(info, inputs, name):
    """runs a harness natively on byte strings; returns list of (input, message) that fail"""
    d = f'{WORK}/native'
    os.makedirs(f'{d}/src', exist_ok=True)
    open(f'{d}/Cargo.toml', 'w').write(f'''[package]
name = "gnative"
version = "0.0.0"
edition = "2021"
[dependencies]
graviola = {{ path = "{REPO}/graviola" }}
[workspace]
[profile.dev]
opt-level = 1
debug = 0
''')
    open(f'{d}/src/main.rs', 'w').write('''
use graviola::verif_root::{AssumeFailed, Nd};
extern "Rust" { fn HARNESS(nd: &mut Nd); }
fn main() {
    std::panic::set_hook(Box::new(|i| eprintln!("{}", i)));
    for a in std::env::args().skip(1) {
        let b: Vec<u8> = (0..a.len() / 2).map(|i| u8::from_str_radix(&a[2 * i..2 * i + 2], 16).unwrap()).collect();
        let mut nd = Nd { b, i: 0 };
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { HARNESS(&mut nd) })) {
            Ok(()) => println!("PASS {}", a),
            Err(e) if e.is::<AssumeFailed>() => println!("SKIP {}", a),
            Err(_) => println!("FAIL {}", a),
        }
    }
}
'''.replace('HARNESS', name))
    shutil.copy(f'{REPO}/Cargo.lock', f'{d}/Cargo.lock') if os.path.exists(f'{REPO}/Cargo.lock') else None
    rc, o = run(['cargo', 'build', '--offline'], cwd=d, env={'GRAVIOLA_VERIF_DIR': info['hd'], 'CARGO_TARGET_DIR': f'{WORK}/native-t', 'RUSTFLAGS': '--cfg graviola_verif', 'RUSTUP_TOOLCHAIN': 'stable'}, timeout=max(60, left() - 30))
    if rc != 0: return None, o
    rc, o = run([f'{WORK}/native-t/debug/gnative'] + [i.hex() for i in inputs], timeout=120)
    bad = re.findall(r'(?m)^FAIL ([0-9a-f]*)', o)
    if rc not in (0,) and not bad: bad = ['crash']
    return bad, o

def judge():
    # concrete failures already reported by the driver settle the matter; still attach proof failures
    for ob, info in FAILED:
        name = ob['name']
        if info['kind'] == 'kani':
            if G['VIOL'] and left() < 400: continue
            rep = None
            if info['crate'] == 'graviola' and not info['k'].get('no_replay'):
                vals, po = playback(info)
                if vals:
                    bad, o = native(info, vals, name)
                    log(f'replay of {name}: {bad}')
                    if bad: rep = {'input_bytes': bad, 'output': o[-3000:]}
            if rep:
                violation(name, {'kind': 'kani counterexample replayed on the compiled code', 'obligation': name, 'failed_checks': info['failed'], **rep, 'kani_output': info['text']})
            elif not info.get('need_replay'):
                violation(name, {'kind': 'kani obligation failed', 'obligation': name, 'failed_checks': info['failed'], 'kani_output': info['text']}, nff=True)
            else: ob['status'] = 'undecided'
        else:
            violation(name, {'kind': 'verus obligation failed', 'obligation': name, 'verifier_output': info['text']}, nff=True)

# ---------------------------------------------------------------- Verus
def verus_all(vs):
    import verus_extract
    verus_extract.setup(globals())
    def one(v):
        try: verus_extract.run_one(v, OBL, FAILED, NOTES)
        except Exception as e: NOTES.append(f'verus unit {v["unit"]}: {e!r}'); OBL.append({'name': 'verus:' + v['unit'], 'backend': 'verus/z3', 'checks': 1, 'status': 'undecided', 'detail': repr(e)})
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex: list(ex.map(one, vs))
