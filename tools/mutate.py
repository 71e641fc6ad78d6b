#!/usr/bin/env python3
"""mutate.py FILE [LANES]: try the changes of FILE (a Python list of
dict(name, props, edits=[(file, old, new[, nth])])) in private copies of /repo
and /verif, several at a time, and print which checks report them."""
import os, sys, subprocess, json, threading, queue
# Counts of cases are divided by $DIV.
def count(prop):
    div = int(os.environ.get('DIV', '1'))
    if div == 1 or prop in ('P27', 'P28', 'P29'): return []
    for l in subprocess.run(['/verif/target/debug/vh', 'list'], capture_output=True, text=True).stdout.split('\n'):
        if l.startswith(prop + ' '): return [str(int(l.split()[1]) // div)]
    return []
if sys.argv[1] == '--lane':
    k = int(sys.argv[2]); lane = f'/tmp/lane{k}'
    subprocess.check_call(['mount', '--bind', lane + '/repo', '/repo'])
    subprocess.check_call(['mount', '--bind', lane + '/verif', '/verif'])
    os.chdir('/verif')
    for line in sys.stdin:
        m = json.loads(line)
        out = []
        saved = {}
        try:
            for e in m['edits']:
                f, o, n = e[:3]
                p = '/repo/' + f
                t = open(p).read()
                saved.setdefault(p, t)
                c = t.count(o)
                if len(e) > 3:
                    parts = t.split(o)
                    assert len(parts) > e[3] + 1, (f, c)
                    t = o.join(parts[:e[3] + 1]) + n + o.join(parts[e[3] + 1:])
                else:
                    assert c == 1, (f, c, o)
                    t = t.replace(o, n)
                open(p, 'w').write(t)
            for prop in m['props']:
                r = subprocess.run(['bash', '/verif/run.sh', prop, 'quick'] + count(prop), stdin=subprocess.DEVNULL, capture_output=True, text=True)
                v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                out.append((prop, r.returncode, bool(v)))
                if r.returncode == 2:
                    out.append(r.stderr[-1500:])
                    break
                if r.returncode == 1 and not m.get('all'):
                    break
        except Exception as e:
            out.append(repr(e))
        finally:
            for p, t in saved.items():
                open(p, 'w').write(t)
        print(json.dumps([m['name'], out]), flush=True)
    sys.exit(0)
src = open(sys.argv[1]).read()
ns = {}
i = src.rindex('\n[\n')
exec(src[:i], ns)
ms = eval(src[i:], ns)
n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
only = set(sys.argv[3:])
if only: ms = [m for m in ms if m['name'] in only]
q = queue.Queue()
for m in ms: q.put(m)
def lane(k):
    d = f'/tmp/lane{k}'
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(f'rsync -a --delete --exclude target --exclude .git /repo/ {d}/repo/ && rsync -a --delete --exclude /target/scratch --exclude .git --exclude /seeded /verif/ {d}/verif/' if os.path.exists('/usr/bin/rsync') else
        f'rm -rf {d}/repo && mkdir -p {d}/repo {d}/verif && (cd /repo && tar cf - --exclude=./target --exclude=./.git .) | tar xf - -C {d}/repo && find {d}/verif -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {{}} + && (cd /verif && tar cf - --exclude=./target --exclude=./.git --exclude=./seeded .) | tar xf - -C {d}/verif && {{ [ -d {d}/verif/target ] || cp -a /verif/target {d}/verif/target; }}', shell=True)
    p = subprocess.Popen(['unshare', '-m', sys.executable, os.path.abspath(__file__), '--lane', str(k)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p.stdin.write(json.dumps(m) + '\n'); p.stdin.flush()
        line = p.stdout.readline()
        if not line: print('lane died', k, m['name']); break
        name, out = json.loads(line)
        caught = any(isinstance(o, list) and o[1] == 1 and o[2] for o in out)
        print(('caught ' if caught else 'MISSED ') + name, [(o[0], o[1]) if isinstance(o, list) else o for o in out], flush=True)
    p.stdin.close(); p.wait()
ts = [threading.Thread(target=lane, args=(k,)) for k in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
