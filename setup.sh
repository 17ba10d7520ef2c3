#!/bin/bash
# Builds the symbolic executor, the dependencies' bitcode and the native replay driver.
cd "$(dirname "$0")" || exit 1
exec python3 -c "
import vlib
with vlib.Lock():
    vlib.build_engine(); vlib.freshen(); [(vlib.build_bitcode(f), vlib.build_native(f)) for f in ('server', '')]
print('ready')"
