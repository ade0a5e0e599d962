#!/bin/bash
# dev.sh PROP [RULE-substring]: run the analysis of one property and show the outcome
set -e
export CARGO_TARGET_DIR=/verif/build/smcheck
( cd /verif/smcheck && cargo +nightly build --release --offline 2>&1 | grep -E "^error" -A12 || true )
LIB=$(rustc +nightly --print sysroot)/lib
export CARGO_TARGET_DIR=/verif/build/dev
rm -rf /verif/build/dev/debug/.fingerprint/anchors-* /verif/build/dev/debug/.fingerprint/static-math-* 2>/dev/null || true
rm -f /verif/build/dev.json*; cd ${DEV_ANCHORS:-/verif/anchors}
LD_LIBRARY_PATH=$LIB RUST_MIN_STACK=4000000000 SM_OUT=/verif/build/dev.json SM_PROP=$1 SM_RULE=$2 SM_REPO=${SM_REPO:-/repo/src} SM_SECS=${SM_SECS:-120} \
 RUSTC_WORKSPACE_WRAPPER=/verif/build/smcheck/release/smcheck RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings --cfg dev $([ "$1" = c99 ] && echo --cfg c99)" cargo +nightly check --offline 2>&1 | grep -vE "^\s*(Compiling|Checking|Finished)" | head -40 || true
python3 - <<'PY' | head -${DEV_LINES:-25}
import json
d=json.load(open('/verif/build/dev.json'))
n=b=shown=0
for r in d['results']:
    bad=[o for o in r['obs'] if not o['ok']]
    n+=len(r['obs']); b+=len(bad)
    flag='ERR ' if r['error'] else ('BAD ' if bad else 'ok  ')
    if flag!='ok  ' or r['ms']>2000 or len(d['results'])<12: print(flag,r['rule'],len(r['obs']),f"{r['ms']}ms steps={r['steps']} joins={r['joins']} nodes={r['nodes']} exact={r['exact']} hash={r['hash']} tries={r['tries']}")
    if r['error']: print('     ',r['error'][:900])
    shown+=1
    for o in bad[:3]:
        if shown<40: print('     ',o['key'],o['detail'][:400])
    if __import__('os').environ.get('DEV_OK'):
        for o in r['obs']: print('       ', o['key'], o['detail'][:100])
print(len(d['results']),'rules',n,'obligations',b,'bad; missing',set(d['rules'])-{r['rule'] for r in d['results']})
PY
