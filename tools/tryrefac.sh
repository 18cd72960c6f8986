#!/bin/bash
# tryrefac.sh [ID...]: prove the properties named beside each behaviour-keeping edit of refactor/ on a scratch copy.
cd "$(dirname "$0")/.."
GVC=${GVC:-/tmp/gvc}
W=$(mktemp -d /tmp/refgp.XXXX)
for id in ${@:-$(ls refactor/*.diff | xargs -n1 basename | sed 's/.diff//')}; do
  rm -rf "$W/src"; mkdir -p $W/src/github.com/vipally
  cp -a /repo $W/src/github.com/vipally/gx
  git -C $W/src/github.com/vipally/gx apply "$PWD/refactor/$id.diff" || continue
  for p in $(cat refactor/$id.props); do
    echo "$id $(timeout 600 $GVC verify -gopath $W -contracts contracts -prop $p -json $W/o.json -dump $W/dump 2>&1 | cut -c1-200 | tail -${LINES_MAX:-3} | tr '\n' '~')"
  done
done
rm -rf "$W"
