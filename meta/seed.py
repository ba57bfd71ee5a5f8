"""seed.py pack ID 'src1 src2 ...'   write seeded/ID/{demo.sh,shim.tgz} around seeded/ID/main.cc
seed.py verify ID [--check]          apply in /repo, build, tests, demo both ways, the property's check; restore"""
import json
import os
import subprocess
import sys
V = '/verif/seeded/'
DEMO = '''#!/bin/bash
# compiles main.cc with the sources of the current directory's tree and runs it: 0 = behaves, 1 = the property is broken
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
R=$(pwd)
tar xzf "$D/shim.tgz" -C "$W" || exit 99
%s
F="-std=gnu++17 -DSPU_BUILD -O1 -g0 -w -fopenmp -mbmi2 -maes -msse4.2 -I$W/shim/include -I$W/gen -I$W -I$R/src -isystem /usr/include/eigen3 -isystem /usr/lib/llvm-18/include"
cp "$D/main.cc" "$W/main.cc"
pids=()
n=0
for s in "$W/main.cc" %s; do
  n=$((n+1))
  g++ $F -c "$s" -o "$W/o$n.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p || exit 98; done
g++ -fopenmp "$W"/o*.o -o "$W/demo" -Wl,--unresolved-symbols=ignore-all -lprotobuf -labsl_throw_delegate -labsl_raw_logging_internal -lpthread -ldl || exit 97
OMP_NUM_THREADS=4 timeout 200 "$W/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def pack(i, srcs):
    d = V + i
    gen = "" if srcs == ["-"] else "REPO_ROOT=\"$R\" bash \"$W/shim/genpb.sh\" \"$W/gen\" >/dev/null || exit 96"
    s = '' if srcs == ['-'] else ' '.join('"$R/src/libspu/%s"' % x for x in srcs) + ' "$W/gen/libspu/spu.pb.cc"'
    open(d + '/demo.sh', 'w').write(DEMO % (gen, s))
    os.chmod(d + '/demo.sh', 0o755)
    sh('cd /verif && tar czf %s/shim.tgz --sort=name --mtime=2020-01-01 --owner=0 --group=0 shim native/common.h native/arrays.h $(ls native/link*.h native/proto*.h harness/h_types.cc 2>/dev/null)' % d)


def verify(i, check=True):
    d = V + i
    m = json.load(open(d + '/meta.json'))
    res = {}
    if sh('git -C /repo status --porcelain').stdout.strip():
        return 'repo dirty'
    r = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
    res['clean'] = r.returncode
    if r.returncode:
        res['out'] = (r.stdout + r.stderr)[-1500:]
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode:
        return 'does not apply: ' + a.stderr
    try:
        b = sh('bash /opt/vp/build.sh')
        res['build'] = b.returncode
        if b.returncode:
            res['bout'] = (b.stdout + b.stderr)[-800:]
        t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        res['tests'] = t.returncode
        r = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
        res['patched'] = r.returncode
        res['msg'] = (r.stdout + r.stderr)[-300:]
        if check:
            c = sh('cd /verif && timeout 900 ./check %s' % m['property'])
            res['check'] = c.returncode
            res['viol'] = [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'obligations' in l]
    finally:
        sh('git -C /repo checkout -- . && bash /opt/vp/build.sh')
    ok = res['clean'] == 0 and res['patched'] in (1, 134, 139) and res['build'] == 0 and res['tests'] == 0
    return ('OK ' if ok else 'BAD ') + ('caught ' if res.get('check') == 1 else 'missed ') + json.dumps(res)


if sys.argv[1] == 'pack':
    pack(sys.argv[2], sys.argv[3].split())
else:
    for i in sys.argv[2:]:
        if i != '--nocheck':
            print(i, verify(i, '--nocheck' not in sys.argv), flush=True)
