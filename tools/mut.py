#!/usr/bin/env python3
"""Mutation run (development aid): mutants of /repo that pass its tests are given to the checks; prints survivors.
usage: mut.py OUT.jsonl WORKERS FRACTION files..."""
import sys, os, json, subprocess, random, threading, queue, time
out, nw, frac = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]); files = sys.argv[4:]
MAP = {'dsio/json.go':'C01 C03 C02 C10','dsio/cbor.go':'C04 C05 C02','dsio/csv.go':'C06 C10 C02','dsio/dsio.go':'C32 C09 C10','dsio/entry.go':'C09','dsio/streams.go':'C09',
 'dsio/identity.go':'C11','dsio/ndjson.go':'C07 C10 C02','dsio/replacecr/replace_cr.go':'C08','dsio/xlsx.go':'C21 C22','dsio/tracked_reader.go':'C32','dsio/entry_buffer.go':'C32',
 'commit.go':'C12 C13 C14','meta.go':'C12 C13 C14 C34','structure.go':'C12 C13 C14 C16','transform.go':'C12 C13 C14 C29','viz.go':'C12 C13 C14 C29','readme.go':'C12 C13 C14 C29','stats.go':'C12 C13 C14',
 'dataset.go':'C12 C13 C14 C15 C29','data_format.go':'C16','data_format_config.go':'C16','kind.go':'C16','compression/compression.go':'C16 C25','hash.go':'C26',
 'vals/type.go':'C17','vals/coding.go':'C17','vals/compare.go':'C17 C36','vals/value.go':'C17 C36','dsstats/stats.go':'C18','dsstats/histosketch/histosketch.go':'C18',
 'detect/cbor.go':'C20','detect/json.go':'C20','detect/detect.go':'C20 C22 C35','detect/determineFields.go':'C20 C22','stepfile/stepfile.go':'C23','preview/preview.go':'C24',
 'validate/csv.go':'C27','validate/data.go':'C27','validate/dataset.go':'C27','validate/validate.go':'C27','tabular/tabular.go':'C06 C22 C30','dsdiff/dsdiff.go':'C31',
 'dsviz/render.go':'C19','generate/value.go':'C28','generate/tabular.go':'C28','dstest/compare.go':'C33','detect/xlsx.go':'C20 C21'}
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', CGO_ENABLED='0')
def sh(c, **k):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, env=env, **k)
    except subprocess.TimeoutExpired: return None
base = json.load(open('/opt/vp/BASELINE.json'))
muts = []
random.seed(int(os.environ.get('MSEED', '7')))
for f in files:
    for l in subprocess.run(['/tmp/mutate', '/repo/' + f], capture_output=True, text=True).stdout.splitlines():
        m = json.loads(l); m['file'] = f
        if random.random() < frac: muts.append(m)
q = queue.Queue(); [q.put(m) for m in muts]
lock = threading.Lock(); cnt = dict(total=len(muts), tests=0, caught=0, missed=0)
print(cnt, flush=True)
import re
def work(k):
    w = f'/tmp/mut/w{k}'; sh(f'rm -rf {w}; mkdir -p {w}; cp -a /repo {w}/repo; mkdir {w}/verif; cp -a /verif/engine /verif/harness /verif/check.sh /verif/known-findings.txt {w}/verif/')
    sh(f"sed -i 's#=> /repo#=> {w}/repo#' {w}/verif/harness/go.mod")
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = f'{w}/repo/{m["file"]}'; s = open(p, 'rb').read()
        o = m['off']; old = m['old'].encode()
        assert s[o:o+len(old)] == old
        open(p, 'wb').write(s[:o] + m['new'].encode() + s[o+len(old):])
        try:
            r = sh('go build ./... && go vet ./' + (os.path.dirname(m['file']) or '.') + ' >/dev/null 2>&1; go test -vet=off ./... 2>&1', cwd=w + '/repo', timeout=120)
            bad = r is None or r.returncode != 0
            if bad:
                with lock: cnt['tests'] += 1
                continue
            res = []; hit = None
            for c in MAP.get(m['file'], '').split():
                if not os.path.isdir(f'/verif/harness/h/{c.lower()}'): continue
                t = time.time()
                r = sh(f'timeout 600 ./check.sh {c} quick -fast -workers {max(2, 8//nw)}', cwd=w + '/verif', timeout=700)
                rc = r.returncode if r else -1
                res.append(f'{c}:{rc}:{time.time()-t:.0f}s')
                if rc == 1: hit = c; break
                if rc not in (0, 1): res.append((r.stderr if r else 'timeout')[-200:])
                mm = re.search(r'inconclusive=(\d+).*unreproduced=(\d+)', r.stdout if r else '')
                if mm and (int(mm[1]) > 60 or int(mm[2])): res.append('inc=%s unrep=%s' % mm.groups())
            m['res'] = res; m['hit'] = hit
            with lock:
                cnt['caught' if hit else 'missed'] += 1
                open(out, 'a').write(json.dumps(m) + '\n')
                if not hit: print('MISS', m['file'], m['line'], m['fn'], m['op'], repr(m['old'][:70]), '->', repr(m['new'][:40]), res, flush=True)
        finally:
            open(p, 'wb').write(s)
    sh(f'rm -rf {w}')
ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
print(cnt)
