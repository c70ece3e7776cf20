#!/bin/bash
# tools/tryseed.sh ID...: demo and check of a planted change in a scratch copy
# (development aid; not used by any check)
try() {
  id=$1; w=/tmp/tryseed/$id; mkdir -p /tmp/tryseed; rm -rf "/tmp/tryseed/$id"; cp -a /repo "$w"
  s=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  cd "$w"; "$s/demo.sh" >/tmp/tryseed/$id.demo0 2>&1; d0=$?
  git apply "$s/patch.diff" || { echo "$id APPLYFAIL"; return; }
  if grep -q '^+++ b/forcepho/src' "$s/patch.diff"; then
    suf=$(/opt/venv/bin/python -c 'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))')
    so=$(ls forcepho/*.so forcepho/src/*.so 2>/dev/null | head -1)
    g++ -O2 -std=c++11 -w -shared -fPIC -Iforcepho/src $(/opt/venv/bin/python -m pybind11 --includes) forcepho/src/compute_gaussians_kernel.cc -o "$so" || echo BUILDFAIL
  fi
  "$s/demo.sh" >/tmp/tryseed/$id.demo1 2>&1; d1=$?
  cd /verif; VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$w VERIF_EVIDENCE=/tmp/tryseed/ev_$id python3 run.py $prop >/tmp/tryseed/$id.check 2>&1; c=$?
  echo "$id demo0=$d0 demo1=$d1 check=$c $(grep VIOLATION /tmp/tryseed/$id.check | head -2)"
  rm -rf "/tmp/tryseed/$id"
}
export -f try
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'try {}'
