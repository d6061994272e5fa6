#!/bin/sh
# replay.sh <driver> <history> [variant]: rebuild the harness from /repo and replay one history in a fresh process
cd "$(dirname "$0")/../.." && exec python3 -c "
import sys; sys.path[:0]=['lib','checks']
import emcheck, runtime
c=emcheck.Check('replay','quick'); runtime.ENV.update(zip(('EM_SO_A','EM_SO_B'), runtime.build_shared(c) or ())) if sys.argv[1]=='reg.cpp' else 0; exe=runtime.build_driver(c,sys.argv[1],sys.argv[3] if len(sys.argv)>3 else 'plain')
rc,out=emcheck.sh([exe,'replay',sys.argv[2]],env=runtime.ENV); print(out,'status',rc)
" "$@"
