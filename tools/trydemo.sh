#!/bin/bash
# trydemo.sh <id>...: runs the demo on the unchanged tree (/repo) and on /tmp/wt with the patch (sources only; no rebuild)
for i in "$@"; do
  s=/verif/seeded/$i
  (cd /tmp/wt && git checkout -q -- . && bash $s/demo.sh >/tmp/demo.0 2>&1); a=$?
  (cd /tmp/wt && git apply $s/patch.diff && { [ -n "$REBUILD" ] && ninja -C _build >/dev/null 2>&1; bash $s/demo.sh >/tmp/demo.1 2>&1; }); b=$?
  (cd /tmp/wt && git checkout -q -- . )
  echo "$i unchanged=$a patched=$b"; [ $a = 0 ] || tail -5 /tmp/demo.0; [ $b != 0 ] || tail -5 /tmp/demo.1
done
