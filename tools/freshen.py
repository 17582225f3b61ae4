#!/usr/bin/env python3
"""Makes cargo's rebuild decision follow file contents: a source file of /repo whose content is what the last build
saw gets its recorded mtime back, a file whose content changed gets a new one. Contents are never touched."""
import hashlib, json, os, sys, time
REPO, DB = '/repo', '/verif/build/contents.json'
try: db = json.load(open(DB))
except Exception: db = {}
new, now = {}, time.time_ns()
for top in ('math', 'pallets', 'primitives', 'traits', 'runtime', 'precompiles', 'utils'):
    for d, ds, fs in os.walk(os.path.join(REPO, top)):
        ds[:] = [x for x in ds if x not in ('target', 'node_modules', '.git')]
        for f in fs:
            if not f.endswith(('.rs', '.sol', '.toml')): continue
            p = os.path.join(d, f)
            try:
                h = hashlib.sha256(open(p, 'rb').read()).hexdigest()
                m = os.stat(p).st_mtime_ns
                want = db[p][1] if p in db and db[p][0] == h else now
                if m != want: os.utime(p, ns=(want, want))
                new[p] = [h, os.stat(p).st_mtime_ns]
            except OSError: pass
os.makedirs(os.path.dirname(DB), exist_ok=True)
json.dump(new, open(DB + '.new', 'w')); os.replace(DB + '.new', DB)
