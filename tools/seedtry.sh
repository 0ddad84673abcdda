#!/bin/bash
# seedtry.sh ID  -- developer tool: try /verif/seeded/ID in a scratch copy of /repo:
# the demonstration must pass before the patch and fail after it; then the property's check runs on the patched copy.
ID=$1; shift
S=${SEED_DIR:-/verif/seeded}/$ID; W=/tmp/seedtry_w
. /opt/vp/env.sh
[ -d $W ] || cp -a /repo $W
cd $W || exit 1
rsync -a --delete --exclude .git --exclude build --exclude '*.c' --exclude '*.cpp' --exclude '*.so' --exclude __pycache__ /repo/ $W/ 2>/dev/null || { git -C $W fetch -q /repo && git -C $W checkout -q -f FETCH_HEAD; }
export NUMBA_CACHE_DIR=$W/build/numba_cache
pyx() { grep -q '^+++ .*\.p[yx]x\|^+++ .*pyx\|^+++ .*pxd\|^+++ .*pxi' $S/patch.diff; }
bld() { git ls-files -m -- '*.pyx' '*.pxd' '*.pxi' | xargs -r touch; $PY setup.py build_ext --inplace -j8 > /tmp/seedtry_build.log 2>&1 || { tail -5 /tmp/seedtry_build.log; echo BUILD FAILED; exit 1; }; }
if pyx; then grep '^+++ ' $S/patch.diff | sed 's,^+++ b/,,' | xargs -r touch; bld; fi
bash $S/demo.sh > /tmp/seedtry_a.log 2>&1; A=$?
git apply $S/patch.diff || exit 1
if pyx; then bld; fi
bash $S/demo.sh > /tmp/seedtry_b.log 2>&1; B=$?
P=$($PY -c "import json;print(json.load(open('$S/meta.json'))['property'])")
echo "$ID: demo unpatched rc=$A, patched rc=$B"; [ $A = 0 ] || tail -5 /tmp/seedtry_a.log; tail -3 /tmp/seedtry_b.log
if [ "$1" != nocheck ]; then
mkdir -p /tmp/seedtry_out
(cd ${VERIF_DIR:-/verif} && LARCHCHECK_REPO=$W LARCHCHECK_OUT=/tmp/seedtry_out $PY -m larchcheck $P --quick 2>&1 | grep -v '^ ' | tail -6; )
fi
git apply -R $S/patch.diff
if pyx; then grep '^+++ ' $S/patch.diff | sed 's,^+++ b/,,' | xargs -r touch; fi
