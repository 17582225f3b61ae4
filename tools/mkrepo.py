"""Writes sub/repo/<crate>/Cargo.toml for the repository's own crates: the real source in /repo, the stand-in crates of
sub/shims as dependencies. Run by hand when the set of crates changes; its output is committed."""
import tomllib, os, sys
ROOT='/verif/sub'
CR={'hydradx-traits':'traits','primitives':'primitives','hydradx-adapters':'runtime/adapters','test-utils':'utils/test-utils',
    'pallet-evm-precompile-call-permit':'precompiles/call-permit','precompile-utils':'precompiles/utils'}
for p in sorted(os.listdir('/repo/pallets')):
    t=tomllib.load(open(f'/repo/pallets/{p}/Cargo.toml','rb')); CR[t['package']['name']]='pallets/'+p
SKIP=set(sys.argv[1:]) or {'pallet-evm-precompile-call-permit','precompile-utils'}
EXT={'pretty_assertions':'pretty_assertions','warehouse-liquidity-mining':None}
ws=tomllib.load(open(f'{ROOT}/Cargo.toml','rb'))['workspace']['dependencies']
shims=set(os.listdir(ROOT+'/shims'))
ver={'proptest':'"1.0.0"','rug':'{ version = "1.17.0", features = ["num-traits"] }','rand':'{ version = "0.8.5", default-features = false, features = ["std", "std_rng"] }','test-case':'"2.2.1"','lazy_static':'"1"','static_assertions':'"1.1"','rustc-hex':'"2"','sha3':'"0.10"'}
ALIAS={'parity-scale-codec':'codec','sp-weights':None,'frame-benchmarking':'frame-benchmarking'}
missing={}
lines=[]
def path(n): return CR.get(n)
for name,dirn in CR.items():
    if name in SKIP: continue
    src=f'/repo/{dirn}/src/lib.rs'
    t=tomllib.load(open(f'/repo/{dirn}/Cargo.toml','rb'))
    def deps(tab):
        out=[]
        for n,v in t.get(tab,{}).items():
            if n==name: continue
            if n=='warehouse-liquidity-mining': out.append('warehouse-liquidity-mining = { package = "pallet-liquidity-mining", path = "../pallet-liquidity-mining" }'); continue
            if n=='parity-scale-codec': out.append('parity-scale-codec = { version = "=3.6.9", features = ["derive", "max-encoded-len"] }'); continue
            if n in CR and n not in SKIP: out.append(f'{n} = {{ path = "../{n}" }}'); continue
            if n in ws and not (isinstance(ws[n],dict) and 'path' in ws[n] and ws[n]['path'].startswith('repo/') and ws[n]['path'][5:] in SKIP): out.append(f'{n} = {{ workspace = true }}'); continue
            if n in ver: out.append(f'{n} = {ver[n]}'); continue
            missing.setdefault(n,[]).append(name)
        return out
    d=deps('dependencies'); dd=deps('dev-dependencies')
    have={x.split(' ')[0] for x in d}
    dd=[x for x in dd if x.split(' ')[0] not in have]
    feats=['default = ["std"]','std = []','runtime-benchmarks = []','try-runtime = []']
    for f in t.get('features',{}):
        if f not in ('default','std','runtime-benchmarks','try-runtime'): feats.append(f'{f} = []')
    os.makedirs(f'{ROOT}/repo/{name}',exist_ok=True)
    open(f'{ROOT}/repo/{name}/Cargo.toml','w').write(f'[package]\nname = "{name}"\nversion = "1.0.0"\nedition = "2021"\n\n[lib]\npath = "{src}"\ndoctest = false\n\n[features]\n'+'\n'.join(feats)+'\n\n[dependencies]\n'+'\n'.join(d)+'\n\n[dev-dependencies]\n'+'\n'.join(dd)+'\n')
print('missing:'); [print(' ',k,v) for k,v in sorted(missing.items())]
