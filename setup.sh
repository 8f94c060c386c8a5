#!/bin/bash
# Nothing to install: checks the toolchain and builds /repo once.
cd "$(dirname "$0")" || exit 1
java -version >/dev/null 2>&1 || exit 1
test -f /opt/veriftools/tla/tla2tools.jar || exit 1
bash /opt/vp/build.sh >/dev/null || exit 1
for f in spec/*.tla; do
  ( cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" >/tmp/sany.$$ 2>&1 ) || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup ok
