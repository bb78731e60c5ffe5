#!/bin/bash
# build_cpp.sh REPO DEST : compile REPO/cpp's modules, as they are now, into DEST (module files
# DEST/lib/*.so).  Starts from a copy of the objects in /opt/dt-build when they are there, and
# rebuilds (by content) what differs.  Writes only inside DEST.
set -u
REPO=$1; DEST=$2
mkdir -p "$DEST/src" "$DEST/lib" || exit 2
if [ -d /opt/dt-build/src ] && [ ! -e "$DEST/.seeded" ]; then
    cp -a /opt/dt-build/src/. "$DEST/src/" 2>/dev/null
    cp -a /opt/dt-build/*.o /opt/dt-build/*.o.d /opt/dt-build/*.so "$DEST/" 2>/dev/null
    touch "$DEST/.seeded"
fi
rsync -rc --delete --include='*.cpp' --include='*.h' --exclude='*' "$REPO/cpp/" "$DEST/src/" || exit 2
cd "$DEST" || exit 2
make -k -j8 -f /opt/vp/solibs.mk all >"$DEST/make.log" 2>&1
rc=$?
suffix=$(/usr/bin/python3-config --extension-suffix)
for so in *.so; do
    cmp -s "$so" "lib/${so%.so}$suffix" || { rm -f "lib/${so%.so}$suffix"; cp "$so" "lib/${so%.so}$suffix"; }
done
exit $rc
