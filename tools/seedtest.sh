#!/bin/bash
# seedtest.sh ID...: confirms planted bugs in a scratch copy of /repo: applies, builds, passes the stable tests, demo 0/1
for id in "$@"; do
    S=/verif/seeded/$id; W=/tmp/seed.$$; rm -rf /tmp/seed.$$; cp -a /repo $W
    D=/tmp/seedd.$$; rm -rf /tmp/seedd.$$; cp -a $S $D
    r=""
    cd $W
    bash $D/demo.sh >/tmp/seed.log 2>&1; [ $? = 0 ] || r="$r demo-fails-clean"
    git apply $S/patch.diff || r="$r no-apply"
    cargo build --offline >>/tmp/seed.log 2>&1 || r="$r no-build"
    cargo test --offline 2>&1 | grep -E "^test .*(FAILED)|test result: F|error: " | head -5 >/tmp/seed.t; [ -s /tmp/seed.t ] && r="$r tests: $(cat /tmp/seed.t)"
    bash $D/demo.sh >/tmp/seed.log 2>&1; [ $? != 0 ] || r="$r demo-passes-patched"
    echo "$id: ${r:-ok}"
    cd /; rm -rf $W $D
done
