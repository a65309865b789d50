#!/usr/bin/env python3
"""mkseed.py SPEC... : turns seed specs into /verif/seeded/<id>/, confirming in scratch copies of /repo that the
patch applies, the demo passes without it and fails with it, the repository's tests still pass; then runs the check.
Spec: header lines 'key: value' (id, property, srcs, needs, breaks, [cflags]), then sections
'---FILE path', '---OLD', '---NEW' (repeatable), '---DEMO'."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = ['ros_stub.h', 'gen.sh', 'safe_landing_planner', 'local_planner', 'global_planner']
DEMO = '''#!/bin/bash
# builds the files under test against stand-in message headers (the sandbox has no ROS) and runs demo.cpp
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d)
cp -r "$D/stubs" "$T/stubs"; bash "$T/stubs/gen.sh"
g++ -std=c++17 -O1 -w -DDISABLE_SIMULATION -fno-access-control %s -include ros/ros.h -I"$T/stubs" -I"$R/avoidance/include" \\
  -I"$R/local_planner/include" -I"$R/safe_landing_planner/include" -I"$R/global_planner/include" -I/usr/include/eigen3 \\
  "$D/demo.cpp" %s -lpthread -o "$T/demo"
rc=$?
if [ $rc -eq 0 ]; then (cd "$T" && timeout 120 ./demo); rc=$?; fi
find "$T" -delete
exit $rc
'''
def parse(path):
    hdr, secs, cur = {}, [], None
    for line in open(path):
        m = re.match(r'---(FILE|OLD|NEW|DEMO)\s*(.*)$', line)
        if m: cur = [m[1], m[2].strip(), '']; secs.append(cur); continue
        if cur is None:
            if ':' in line:
                k, v = line.split(':', 1); hdr[k.strip()] = v.strip()
        else: cur[2] += line
    return hdr, secs
def sh(cmd, cwd=None, env=None, t=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 124, 'timeout'
def main():
    tests = '--tests' in sys.argv; check = '--nocheck' not in sys.argv
    for spec in [a for a in sys.argv[1:] if not a.startswith('--')]:
        hdr, secs = parse(spec); sid = hdr['id']
        W = '/tmp/sw/' + sid
        if os.path.exists(W): shutil.rmtree(W)
        subprocess.check_call(['cp', '-a', '/repo', W])
        sh(['git', 'checkout', '-q', '--', '.'], W)
        out = os.path.join(V, 'seeded', sid); tmpout = '/tmp/sw/out-' + sid
        if os.path.exists(tmpout): shutil.rmtree(tmpout)
        os.makedirs(tmpout)
        f, old = None, None
        for kind, arg, txt in secs:
            if kind == 'FILE': f = arg
            elif kind == 'OLD': old = txt
            elif kind == 'NEW':
                p = os.path.join(W, f); s = open(p).read()
                if s.count(old) != 1: print(sid, 'OLD text found', s.count(old), 'times in', f, '\n', old); break
                open(p, 'w').write(s.replace(old, txt))
            elif kind == 'DEMO': open(tmpout + '/demo.cpp', 'w').write(txt)
        else:
            rc, diff = sh(['git', 'diff'], W); open(tmpout + '/patch.diff', 'w').write(diff)
            srcs = ' '.join('"$R/%s"' % s for s in hdr.get('srcs', '').split(',') if s)
            open(tmpout + '/demo.sh', 'w').write(DEMO % (hdr.get('cflags', ''), srcs)); os.chmod(tmpout + '/demo.sh', 0o755)
            json.dump({'property': hdr['property'], 'needs': hdr['needs'], 'what_it_breaks': hdr['breaks']}, open(tmpout + '/meta.json', 'w'), indent=1)
            os.makedirs(tmpout + '/stubs')
            for s in STUBS:
                a, b = os.path.join(V, 'stubs', s), tmpout + '/stubs/' + s
                shutil.copytree(a, b) if os.path.isdir(a) else shutil.copy(a, b)
            r0, o0 = sh(['bash', tmpout + '/demo.sh'], '/repo'); r1, o1 = sh(['bash', tmpout + '/demo.sh'], W)
            ok = r0 == 0 and r1 not in (0, 124) and 'error:' not in o1
            if not ok: print(sid, 'DEMO', r0, o0[-1500:], '| patched', r1, o1[-1500:]); continue
            if os.path.exists(out): shutil.rmtree(out)
            shutil.copytree(tmpout, out)
            msg = ''
            if tests: msg = sh(['bash', V + '/tools/repo_tests.sh', W])[1]; msg = ' '.join(l for l in msg.splitlines() if 'FAIL' in l)
            res = '-'
            if check:
                import time; t0 = time.time()
                rc, o = sh(['python3', V + '/check.py', hdr['property']], V, dict(os.environ, VERIF_REPO=W))
                res = {0: 'MISSED', 1: 'caught'}.get(rc, 'rc=%d %s' % (rc, o[-300:])) + ' %.0fs ' % (time.time() - t0) + ' '.join(l for l in o.splitlines() if 'VIOLATION' in l)[:120]
            print(sid, 'demo ok; check', res, msg, flush=True)
        shutil.rmtree(W); 
        if os.path.exists(tmpout): shutil.rmtree(tmpout)
main()
