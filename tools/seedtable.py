'''seedtable.py: by hand; which contracts refuse each planted bug (prover only, no bounded part). Writes /tmp/seedtable.json'''
import os, sys, json, subprocess, tempfile, shutil, re
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'), key=lambda x: int(x[1:].split('_')[0]))
out = {}
for d in ids:
    T = tempfile.mkdtemp(prefix='st_', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo', T + '/repo'])
        subprocess.check_call(['git', '-C', T + '/repo', 'apply', f'/verif/seeded/{d}/patch.diff'], stderr=subprocess.DEVNULL)
        pid = json.load(open(f'/verif/seeded/{d}/meta.json'))['property']
        r = subprocess.run(['python3-vt', 'prove.py', pid, '-v', '--procs', '4'], cwd='/verif/engine', env=dict(os.environ, HYLAA_REPO=T + '/repo'), capture_output=True, text=True)
        bad = {}
        cur = None
        for l in r.stdout.splitlines():
            m = re.match(r'(\S+)/\S+: (\d+)/(\d+) paths', l)
            if m:
                if m.group(2) != m.group(3):
                    bad[m.group(1)] = bad.get(m.group(1), 0) + int(m.group(3)) - int(m.group(2))
        out[d] = bad
        print(d, pid, bad, r.stdout.splitlines()[-1:], flush=True)
    finally:
        shutil.rmtree(T, ignore_errors=True)
json.dump(out, open('/tmp/seedtable.json', 'w'), indent=1)
