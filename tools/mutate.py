#!/usr/bin/env python3
"""mutate.py LANE NLANES COUNT SEED FILE...: one-token changes to /repo source files, one at a time, in a scratch copy;
reports which the property monitors notice. Survivors are for a person to read: many change nothing observable."""
import os, random, re, shutil, subprocess, sys
lane, lanes, count, seed = map(int, sys.argv[1:5]); files = sys.argv[5:]
root = f'/tmp/mut{lane}'
PROPS = {'evm/evm-utility': 'C14 C15', 'hydradx/src/evm': 'C28 C29', 'dynamic-evm-fee': 'C29', 'pallets/dca/': 'C25', 'otc-settlements': 'C27', 'pallets/otc/': 'C26', 'transaction-multi-payment': 'C24', 'ema-oracle': 'C23', 'circuit-breaker': 'C22', 'route-executor': 'C21', 'pallets/staking/': 'C30', 'omnipool-liquidity-mining': 'C32', 'pallets/liquidity-mining': 'C31', 'xyk-liquidity-mining': 'C32',
         'dynamic-fees': 'C11', 'pallets/democracy': 'C44', 'pallets/nft': 'C43', 'referrals': 'C33', 'bonds': 'C34', 'asset-registry': 'C35', 'currencies': 'C36', 'duster': 'C37', 'claims': 'C38', 'transaction-pause': 'C39', 'collator-rewards': 'C40', 'xcm-rate-limiter': 'C12', 'runtime/adapters': 'C41 C42', 'evm-accounts': 'C28 C29', 'pallets/evm': 'C28 C29', 'dispatcher': 'C29', 'xcm_': 'C12',
         'precompiles/utils/': 'C14 C15', 'call-permit': 'C15', 'evm-utility': 'C14 C15', 'pallets/omnipool/': 'C16 C01 C02 C17', 'pallets/stableswap/': 'C18 C03 C04 C17', 'pallets/xyk/': 'C19 C05 C17', 'pallets/lbp/': 'C20 C06 C17', 'omnipool_subpools': 'C02 C01', 'omnipool': 'C01 C02 C13', 'stableswap': 'C04 C03 C13', 'xyk': 'C05 C13', 'lbp': 'C06 C13', 'ema': 'C07',
         'liquidity_mining': 'C09', 'staking': 'C10', 'dynamic_fees': 'C11', 'rate_limiter': 'C12', 'fee.rs': 'C12', '': 'C08'}
ALL = [f'C{i:02}' for i in range(1, 14)]
PARTS = {l.split()[0]: [x.lstrip('+') for x in l.split()[1:]] for l in open('/verif/parts.txt') if l.strip() and l[0] != '#'}
OPS = [(r'checked_add', 'checked_sub'), (r'checked_sub', 'checked_add'), (r'checked_mul', 'checked_div'), (r'checked_div', 'checked_mul'), (r'saturating_sub', 'saturating_add'),
       (r'saturating_add', 'saturating_sub'), (r'saturating_mul', 'saturating_add'), (r'Rounding::Up', 'Rounding::Down'), (r'Rounding::Down', 'Rounding::Up'), (r' < ', ' <= '), (r' <= ', ' < '),
       (r' > ', ' >= '), (r' >= ', ' > '), (r' < ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r'round_up', 'round_down'), (r'round_down', 'round_up'), (r'!(?=[a-z])', ''), (r'\bone\(\)', 'zero()'), (r'\bzero\(\)', 'one()'),
       (r'(?<![\w.])1(_?[ui]\d+)?(?![\w.])', '0'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])2(?![\w.])', '1'), (r'is_zero\(\)', 'is_one()'), (r'Some\(', 'None.or(Some('),
       (r'\bin_', 'out_'), (r'\bout_', 'in_'), (r'>>', '<<'), (r'\.saturating_pow\(', '.wrapping_pow('), (r'_in\b', '_out'), (r'_out\b', '_in'), (r'Increase\(', 'Decrease('), (r'Decrease\(', 'Increase('),
       (r'ref_amount|amount', 'amount'), (r'BalanceUpdate::Increase', 'BalanceUpdate::Decrease'), (r'saturating_sub\((\w+)\)', r'saturating_sub(Default::default())'), (r'(checked|saturating)_sub\(1', r'\1_sub(0'), (r'(checked|saturating)_add\(1', r'\1_add(0')]
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(root):
    os.makedirs(root); sh(f'git -C /verif archive HEAD sub tools parts.txt known-findings.json | tar x -C {root}; mkdir {root}/repo; git -C /repo archive HEAD | tar x -C {root}/repo')
    sh(f"grep -rl '\"/repo/' {root}/sub --include=Cargo.toml --include=main.rs | xargs sed -i 's#\"/repo/#\"{root}/repo/#'")
env = dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='1.75.0', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', RUSTFLAGS='--cap-lints allow', CARGO_TARGET_DIR=root + '/target',
           VERIF_ROOT=root, VERIF_SEED='1', VERIF_TIER='quick', CARGO_INCREMENTAL='1')
sites = []
for f in files:
    src = open(f'/repo/{f}').read(); cut = re.search(r'#\[cfg\(test\)\]\nmod \w+ \{', src); cut = cut.start() if cut else len(src)
    per = []
    pos = 0
    for line in src.splitlines(True):
        code = line.split('//')[0]
        if pos < cut and code.strip() and not re.match(r'\s*(use |pub use|#|mod |pub mod|pub fn|fn |pub const|///|\*)', line) and 'macro_rules' not in line:
            for i, (a, b) in enumerate(OPS):
                for m in re.finditer(a, code):
                    new = code[:m.start()] + m.expand(b) + code[m.end():]
                    if b.startswith('None.or'): continue
                    if new != code: per.append((f, pos, line, new + line[len(code):]))
            if re.match(r'^\t+\w[\w.]*\s*(=|\+=|-=|\*=).*;\n$', line) or re.match(r'^\t+(ensure!|round_up!)', line): per.append((f, pos, line, '\n'))
        pos += len(line)
    random.Random(f'{seed}{f}').shuffle(per); sites += per[:count]
random.Random(seed).shuffle(sites)
sites = sites[lane::lanes]
log = open(f'/root/mut/log.{lane}', 'a'); stat = {'caught': 0, 'nobuild': 0, 'survived': 0}
for f, pos, old, new in sites:
    path = f'{root}/repo/{f}'; src = open(f'/repo/{f}').read()
    open(path, 'w').write(src[:pos] + new + src[pos + len(old):])
    key = next((k for k in PROPS if k and k in f), ''); first = PROPS[key].split(); order = first + [p for p in ALL if p not in first and (key in ('', 'fee.rs'))]
    verdict = 'survived'
    built = set()
    for p in order:
        for part in (PARTS[p] if not f.startswith(('pallets/', 'runtime/adapters', 'runtime/hydradx/src/evm/')) else [x for x in PARTS[p] if not x.startswith('math-')]):
            if part not in built:
                r = sh(f'cd {root}/sub && nice cargo build --offline -q --bin {part}', env=env)
                if r.returncode: verdict = 'nobuild'; break
                built.add(part)
            r = sh(f'timeout 300 nice {root}/target/debug/{part} {p}', env=dict(env, VERIF_PART=part))
            if r.returncode: verdict = f'caught {p} {part} rc={r.returncode}'; break
        if verdict != 'survived': break
    stat[verdict.split()[0]] += 1
    log.write(f'{verdict}\t{f}:{src[:pos].count(chr(10))+1}\t{old.strip()}\t=>\t{new.strip()}\n'); log.flush()
    open(path, 'w').write(src)
log.write(f'DONE {stat}\n'); log.close()
