import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant, render_demo, lib_demo
MQ = '''#!/bin/bash
O=$(mktemp -d) || exit 2
trap 'rm -rf "$O"' EXIT
M=/repo/_build/main/tools/miqser/miqser
cd "$O" || exit 2
'''
d = plant('c01-int-bytes', 'C01', 'binary output of an integer or string length between 128 and 255, or with 0x80 set in its highest non-zero byte',
          'binary RIB drops the high bytes of some integers, so the file reads back as other values',
          [('libs/riutil/ribwriter.cpp', '            if(c[1]) return 2;\n            if(c[2]) return 1;\n', '            if(c[1] > 0) return 2;\n            if(c[2] > 0) return 1;\n')])
open(d + '/demo.sh', 'w').write(MQ + '''
for n in 1 300 40000 65535 8388608 9000000 16777215; do
	printf 'Format %d 20 1\\n' $n > a.rib
	$M -b -o b.rib a.rib && $M -o c.rib b.rib || exit 2
	grep -q "^Format $n 20 1" c.rib || { echo "Format $n lost:"; cat c.rib; exit 1; }
done
exit 0
''')
d = plant('c04-nested-archive', 'C04', 'an inline archive holding two further archives nested inside one another',
          'the recording of an inline archive ends too early when definitions are nested three deep',
          [('libs/riutil/renderutil_filter.cpp', '                ++m_nested;\n                m_currCache->push_back(new RiCache::ArchiveBegin', '                m_nested = 1;\n                m_currCache->push_back(new RiCache::ArchiveBegin')])
lib_demo(d, r'''
#include <sstream>
#include <iostream>
#include <boost/shared_ptr.hpp>
#include <aqsis/riutil/ribwriter.h>
#include <aqsis/riutil/ricxxutil.h>
#include <aqsis/riutil/ricxx_filter.h>
#include <aqsis/riutil/errorhandler.h>
using namespace Aqsis;
static bool cond(RtConstString) { return false; }
int main()
{
    std::ostringstream out;
    RibWriterOptions o; o.interpolateArchives = false;
    boost::shared_ptr<RibWriterServices> w(createRibWriter(out, o));
    boost::shared_ptr<Ri::Filter> f(createRenderUtilFilter(cond));
    w->addFilter(*f);
    std::istringstream in("ArchiveBegin \"a\"\nArchiveBegin \"b\"\nArchiveBegin \"c\"\nSphere 1 -1 1 360\nArchiveEnd\nArchiveEnd\nCylinder 1 -1 1 360\nArchiveEnd\n");
    w->parseRib(in, "x");
    std::string s = out.str();
    std::cout << s;
    return s.find("Cylinder") == std::string::npos ? 0 : 1;
}
''', 'riutil util', '-lboost_system')
d = plant('c06-quantize-min', 'C06', 'a display quantised to a range with a negative minimum, and negative values (an output variable such as P)',
          'negative values are delivered as 0 to displays with signed data',
          [('libs/core/ddmanager/ddmanager.cpp', 'value = clamp<double>(value, m_QuantizeMinVal, m_QuantizeMaxVal) ;', 'value = clamp<double>(value, std::max(m_QuantizeMinVal, 0.0f), m_QuantizeMaxVal) ;')])
render_demo(d, '''
cat > a.rib <<EOF
Format 4 4 1
PixelSamples 1 1
Projection "orthographic"
PixelFilter "box" 1 1
Display "a.txt" "log" "N" "float[4] quantize" [0 100 -1000 1000] "float dither" [0]
WorldBegin
Color [.5 1 0]
Surface "k"
Translate 0 0 3
Sphere 1 -1 1 360
WorldEnd
EOF
shader k <<EOF
surface k() { Ci = Cs; Oi = 1; }
EOF
render a.rib
awk 'NF == 5 && $3 < -20 { n++ } END { exit n < 3 }' a.txt || { cat a.txt; exit 1; }
''')
