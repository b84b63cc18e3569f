#!/bin/bash
# mkaqsis.sh OUT_DIR: links the renderer (and the log display) from the build's archives.
# The point cloud library missing from the release is replaced by a stub.
set -e
H=$(cd "$(dirname "$0")" && pwd); O=$1; R=/repo; B=$R/_build/main
D="-w -O1 -fPIC -DBOOST_ATOMIC_DYN_LINK -DBOOST_FILESYSTEM_DYN_LINK -DBOOST_REGEX_DYN_LINK -DBOOST_SYSTEM_DYN_LINK"
I="-I$R/include -I$B/include -I/usr/include/OpenEXR -I/usr/include/Imath -I$R/libs/shadervm/shaderexecenv -I$H/partio -I$R/libs/pointrender -I$R/libs/core -I$R/libs/riutil"
i=0
for f in $R/libs/shadervm/shaderexecenv/shadeops_bake3d.cpp $R/libs/shadervm/shaderexecenv/shadeops_indirectdiffuse.cpp \
	$R/libs/pointrender/diffuse/DiffusePointOctree.cpp $R/libs/pointrender/diffuse/DiffusePointOctreeCache.cpp $H/partio/core/partio_stub.cpp $R/tools/aqsis/aqsis.cpp; do
	i=$((i+1)); g++ $D $I -c $f -o $O/o$i.o &
done
wait
g++ -shared -fPIC -w -I$R/include -I$B/include $H/logdspy.cpp -o $O/logdspy.so
rp=""; L=""
for l in riutil tex math util; do L="$L $B/libs/$l/libaqsis_$l.so"; rp="$rp -Wl,-rpath,$B/libs/$l"; done
g++ -o $O/aqsis $O/o*.o -rdynamic -Wl,--whole-archive $B/libs/core/libaqsis_core_objects.a $B/libs/shadervm/libaqsis_shadervm_objects.a -Wl,--no-whole-archive \
	$L $rp -ltiff -ltiffxx -lpng -lOpenEXR -lIex -lImath -lIlmThread -lz -ldl -lpthread -lboost_thread -lboost_timer -lboost_iostreams -lboost_filesystem -lboost_regex -lboost_system -lboost_atomic -lboost_wave 2>$O/link.err || { cat $O/link.err | tail -20; exit 99; }
