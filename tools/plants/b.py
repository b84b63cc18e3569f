import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant, render_demo, lib_demo
MQ = '''#!/bin/bash
O=$(mktemp -d) || exit 2
trap 'rm -rf "$O"' EXIT
M=/repo/_build/main/tools/miqser/miqser
cd "$O" || exit 2
'''
d = plant('c02-string-cr', 'C02', 'a quoted string that holds a carriage return which no line feed follows', 'the character after a lone carriage return in a string is lost',
          [('libs/riutil/ribtokenizer.cpp', "				if(inBuf.get() != '\\n')\n					inBuf.unget();\n				outString += '\\n';", "				if(inBuf.get() == '\"')\n					inBuf.unget();\n				outString += '\\n';")])
open(d + '/demo.sh', 'w').write(MQ + r'''
printf 'Attribute "user" "string note" ["one\rtwo"]\n' > a.rib
$M -o b.rib a.rib || exit 2
tr '\n' '~' < b.rib | grep -q 'one.ntwo\|one~two' || { cat b.rib; exit 1; }
exit 0
''')
d = plant('c03-buffer-wrap', 'C03', 'a CR LF line ending whose two bytes fall on either side of the end of the input buffer', 'the line number of errors after that place is one too large',
          [('libs/riutil/ribinputbuffer.cpp', '		m_buffer[0] = m_buffer[m_bufSize-2];\n		m_buffer[1] = m_buffer[m_bufSize-1];\n', '		m_buffer[0] = m_buffer[1] = 0;\n')])
open(d + '/demo.sh', 'w').write(MQ + '''
bad=0
for n in $(seq 0 700); do
	{ printf '#%*s\\r\\n' $n ''; printf 'Nonsense 1\\n'; } > a$n.rib
	$M -o b.rib a$n.rib > log 2>&1
	grep -q ':2 \\|:2:' log || { echo "comment of $n blanks:"; cat log; bad=1; break; }
done
exit $bad
''')
d = plant('c05-archive-scope', 'C05', 'an inline archive, then calls that are not allowed at the scope around it', 'after ArchiveEnd the validator still believes it is inside the archive and lets everything through',
          [('libs/riutil/ricxx_validate.cpp', '    ApiScope currScope = m_scopeStack.top();\n    if(currScope == Scope_Archive && oldScope != Scope_Archive)\n        return;\n    assert(currScope == oldScope);\n', '    ApiScope currScope = m_scopeStack.top();\n    if(currScope == Scope_Archive)\n        return;\n    assert(currScope == oldScope);\n')])
lib_demo(d, r'''
#include <sstream>
#include <iostream>
#include <boost/shared_ptr.hpp>
#include <aqsis/riutil/ribwriter.h>
#include <aqsis/riutil/ricxxutil.h>
#include <aqsis/riutil/ricxx_filter.h>
#include <aqsis/riutil/errorhandler.h>
using namespace Aqsis;
int main()
{
    std::ostringstream out;
    RibWriterOptions o; o.interpolateArchives = false;
    boost::shared_ptr<RibWriterServices> w(createRibWriter(out, o));
    w->addFilter("validate");
    std::istringstream in("FrameBegin 1\nArchiveBegin \"a\"\nSphere 1 -1 1 360\nArchiveEnd\nWorldBegin\nFormat 11 12 1\nWorldEnd\nFrameEnd\n");
    w->parseRib(in, "x");
    std::string s = out.str();
    std::cout << s;
    return s.find("Format 11") == std::string::npos && s.find("WorldEnd") != std::string::npos ? 0 : 1;
}
''', 'riutil util', '-lboost_system')
LOG = 'Display "a.txt" "log" "%s" "float[4] quantize" [0 0 0 0] "float dither" [0]\n'
HEAD = '''
cat > a.rib <<EOF
Format 16 16 1
PixelSamples 1 1
PixelFilter "box" 1 1
'''
d = plant('c07-torus-bound', 'C07', 'a torus large enough on screen to be split, its pieces beyond half a turn', 'pieces of a split torus are bounded in the wrong place and go missing',
          [('libs/core/geometry/quadrics.cpp', '\tCircle( vA, vB, vC, m_MinorRadius, degToRad( std::min(m_PhiMin, m_PhiMax) ), degToRad( std::max(m_PhiMin, m_PhiMax) ), curve );\n\tCqMatrix matRot( degToRad ( m_ThetaMin ), vC );',
            '\tCircle( vA, vB, vC, m_MinorRadius, degToRad( std::min(m_PhiMin, m_PhiMax) ), degToRad( std::max(m_PhiMin, m_PhiMax) ), curve );\n\tCqMatrix matRot( degToRad ( std::min(m_ThetaMin, 180.0f) ), vC );')])
render_demo(d, HEAD.replace('16 16', '256 256') + 'Projection "orthographic"\nOption "limits" "integer[2] bucketsize" [8 8] "integer gridsize" [16]\nShadingRate .25\n' + LOG % 'a' + '''WorldBegin
Surface "k"
Translate 0 0 3
Rotate 180 0 0 1
Torus .7 .2 0 360 360
WorldEnd
EOF
shader k <<EOF
surface k() { Ci = Cs; Oi = 1; }
EOF
render a.rib
awk 'NF == 3 { x = ($1 + .5)/128 - 1; y = ($2 + .5)/128 - 1; r = sqrt(x*x + y*y); if(r > .53 && r < .87) { n++; if($3 < .99) bad++ } } END { print n, bad + 0; exit bad > 0 || n < 1000 }' a.txt || exit 1
''')
d = plant('c08-zthreshold', 'C08', 'a surface whose opacity falls short of the depth threshold in blue only, in front of an opaque one', 'the depth of a surface that is transparent in blue is taken for the depth of an opaque one',
          [('libs/core/imagepixel.cpp', "				   && sample_data[Sample_OBlue]  >= zThreshold.b())", "				   && sample_data[Sample_OGreen] >= zThreshold.b())")])
render_demo(d, HEAD + 'Projection "orthographic"\n' + LOG % 'z' + """WorldBegin
Surface "k"
Translate 0 0 3
AttributeBegin
Opacity [1 1 .25]
Polygon "P" [-2 -2 0 2 -2 0 2 2 0 -2 2 0]
AttributeEnd
Translate 0 0 2
Polygon "P" [-2 -2 0 2 -2 0 2 2 0 -2 2 0]
WorldEnd
EOF
shader k <<EOF
surface k() { Ci = Cs*Os; Oi = Os; }
EOF
render a.rib
awk 'NF == 3 && $1 != "open" && ($3 > 5.01 || $3 < 4.99) { n++ } END { exit n > 0 || NR < 200 }' a.txt || { head -5 a.txt; exit 1; }
""")
d = plant('c10-deep-break', 'C10', 'a break under three or more nested varying conditionals inside a loop', 'points that broke out of the loop from a deeply nested place go on running in the outer blocks',
          [('libs/shadervm/shaderexecenv/shaderexecenv.h', '					end = m_stkState.rbegin()+numLevels; i != end; ++i)', '					end = m_stkState.rbegin()+(numLevels < 3 ? numLevels : 3); i != end; ++i)')])
render_demo(d, HEAD + 'Projection "orthographic"\n' + LOG % 'rgb' + '''WorldBegin
ShadingInterpolation "constant"
Surface "k"
Translate 0 0 3
Polygon "P" [-1 -1 0 1 -1 0 1 1 0 -1 1 0]
WorldEnd
EOF
shader k <<EOF
surface k()
{
	varying float n = 0, i;
	for(i = 0; i < 10; i += 1)
	{
		if(s > -1) {
			if(t > -1) {
				if(u > -1) {
					if(s + t > 0.9) { break; }
				}
			}
		}
		n += 1;
	}
	Ci = n/10; Oi = 1;
}
EOF
render a.rib
awk 'NF == 5 && $3 != 0 && $3 != 1 { bad++ } NF == 5 && $3 == 0 { z++ } NF == 5 && $3 == 1 { o++ } END { exit bad > 0 || z < 20 || o < 30 }' a.txt || { head -40 a.txt; exit 1; }
''')
d = plant('c11-mod-multiple', 'C11', 'mod of a negative number that is a whole multiple of the modulus', 'mod(-4, 2) is 2 instead of 0',
          [('libs/shadervm/shaderexecenv/shadeops_math.cpp', '			if ( a2 < 0.0f )\n				a2 += _aq_b;', '			if ( _aq_a < 0.0f )\n				a2 += _aq_b;')])
render_demo(d, HEAD + 'Projection "orthographic"\n' + LOG % 'rgb' + '''WorldBegin
Surface "k"
Translate 0 0 3
Polygon "P" [-1 -1 0 1 -1 0 1 1 0 -1 1 0]
WorldEnd
EOF
shader k <<EOF
surface k(float a = -4, b = 2;) { Ci = color(mod(a, b), mod(-6, 3), mod(-5, 3)); Oi = 1; }
EOF
render a.rib
awk 'NF == 5 && ($3 != 0 || $4 != 0 || $5 != 1) { bad++ } END { exit bad > 0 || NR < 200 }' a.txt || { head -5 a.txt; exit 1; }
''')
d = plant('c13-tile-rows', 'C13', 'reading some but not all lines of a single row of tiles', 'reading the first lines of a row of tiles writes the whole height of the tile past the end of the buffer',
          [('libs/tex/io/tiffinputfile.cpp', '			(y + tileInfo.height == endTileLine) ? endTileLine - endLine : 0;', '			(y + tileInfo.height == endTileLine && y != startTileLine) ? endTileLine - endLine : 0;')])
lib_demo(d, r'''
#include <tiffio.h>
#include <iostream>
#include <vector>
#include <aqsis/tex/io/itexinputfile.h>
#include <aqsis/tex/buffers/texturebuffer.h>
using namespace Aqsis;
int main()
{
    const int N = 64, T = 32;
    TIFF* f = TIFFOpen("a.tif", "w");
    TIFFSetField(f, TIFFTAG_IMAGEWIDTH, N); TIFFSetField(f, TIFFTAG_IMAGELENGTH, N); TIFFSetField(f, TIFFTAG_TILEWIDTH, T); TIFFSetField(f, TIFFTAG_TILELENGTH, T);
    TIFFSetField(f, TIFFTAG_SAMPLESPERPIXEL, 1); TIFFSetField(f, TIFFTAG_BITSPERSAMPLE, 8); TIFFSetField(f, TIFFTAG_PHOTOMETRIC, PHOTOMETRIC_MINISBLACK); TIFFSetField(f, TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
    for(int y = 0; y < N; y += T) for(int x = 0; x < N; x += T)
    {
        std::vector<unsigned char> b(T*T);
        for(int i = 0; i < T*T; ++i) b[i] = (x + i%T) + 3*(y + i/T);
        TIFFWriteTile(f, &b[0], x, y, 0, 0);
    }
    TIFFClose(f);
    boost::shared_ptr<IqTexInputFile> in = IqTexInputFile::open("a.tif");
    // the lines asked for land in the front of the buffer, the rest stays as it was
    std::vector<unsigned char> big(N*N, 77);
    struct Buf
    {
        unsigned char* p; CqChannelList c;
        void resize(TqInt, TqInt, const CqChannelList& l) { c = l; }
        unsigned char* rawData() { return p; }
        int width() const { return N; } int height() const { return 3; }
        const CqChannelList& channelList() const { return c; }
    } buf;
    buf.p = &big[0];
    in->readPixels(buf, 2, 3);
    for(int i = 0; i < 3*N; ++i) if(big[i] != (unsigned char)(i%N + 3*(2 + i/N))) { std::cout << "pixel " << i << "\n"; return 1; }
    for(int i = 3*N; i < N*N; ++i) if(big[i] != 77) { std::cout << "byte " << i << " past the end was written\n"; return 1; }
    return 0;
}
''', 'tex util', '-ltiff -lboost_system')
d = plant('c14-wrap-modes', 'C14', 'a texture with different wrap modes in s and t, looked up across an edge in t', 'the wrap mode of s is used in t as well',
          [('libs/tex/filtering/mipmap.h', 'SqWrapModes(sampleOpts.sWrapMode(), sampleOpts.tWrapMode())', 'SqWrapModes(sampleOpts.sWrapMode(), sampleOpts.tWrapMode() == WrapMode_Periodic ? WrapMode_Periodic : sampleOpts.sWrapMode())')])
lib_demo(d, r'''
#include <tiffio.h>
#include <iostream>
#include <vector>
#include <aqsis/tex/maketexture.h>
#include <aqsis/tex/filtering/itexturecache.h>
#include <aqsis/tex/filtering/itexturesampler.h>
#include <aqsis/tex/filtering/texturesampleoptions.h>
#include <aqsis/tex/filtering/samplequad.h>
using namespace Aqsis;
static const char* here() { return "."; }
static RtFloat box(RtFloat, RtFloat, RtFloat, RtFloat) { return 1; }
int main()
{
    const int N = 32;
    TIFF* f = TIFFOpen("a.tif", "w");
    TIFFSetField(f, TIFFTAG_IMAGEWIDTH, N); TIFFSetField(f, TIFFTAG_IMAGELENGTH, N); TIFFSetField(f, TIFFTAG_ROWSPERSTRIP, N);
    TIFFSetField(f, TIFFTAG_SAMPLESPERPIXEL, 1); TIFFSetField(f, TIFFTAG_BITSPERSAMPLE, 8); TIFFSetField(f, TIFFTAG_PHOTOMETRIC, PHOTOMETRIC_MINISBLACK); TIFFSetField(f, TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
    std::vector<unsigned char> b(N, 255);
    for(int y = 0; y < N; ++y) TIFFWriteScanline(f, &b[0], y, 0);
    TIFFClose(f);
    makeTexture("a.tif", "a.tex", SqFilterInfo(box, 1, 1), SqWrapModes(WrapMode_Black, WrapMode_Clamp), CqRiParamList(Ri::ParamList()));
    boost::shared_ptr<IqTextureCache> c = IqTextureCache::create(&here);
    IqTextureSampler& s = c->findTextureSampler("a.tex");
    CqTextureSampleOptions o = s.defaultSampleOptions();
    o.setNumChannels(1);
    float v = -1;
    s.sample(SqSamplePllgram(CqVector2D(.5, 1.5), CqVector2D(.01, 0), CqVector2D(0, .01)), o, &v);
    std::cout << v << "\n";
    return v > .99 ? 0 : 1;
}
''', 'tex math util', '-ltiff -lboost_system')
d = plant('c15-pivot-sign', 'C15', 'a matrix to invert whose pivot column holds zero on the diagonal and only negative numbers below', 'the inverse of an invertible matrix is reported singular or is wrong',
          [('libs/math/matrix.cpp', 'if ( fabs( a.m_elements[ i ][ j ] ) > fabs( a.m_elements[ i1 ][ j ] ) )', 'if ( a.m_elements[ i ][ j ] > fabs( a.m_elements[ i1 ][ j ] ) )')])
lib_demo(d, r'''
#include <iostream>
#include <cmath>
#include <aqsis/math/matrix.h>
using namespace Aqsis;
int main()
{
    CqMatrix m(0,-1,0,0, -1,0,0,0, 0,0,1,0, 0,0,0,1);
    CqMatrix p = m*m.Inverse();
    for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) if(!(std::fabs(p[i][j] - (i == j)) < 1e-5)) { std::cout << i << " " << j << " " << p[i][j] << "\n"; return 1; }
    return 0;
}
''', 'math util', '')
d = plant('c16-curve-step', 'C16', 'cubic curves with a varying parameter, passed through the C interface under a basis whose two steps differ', 'the length of varying data follows the step of u instead of v, so values are lost or read past the end',
          [('libs/riutil/ri2ricxx.cpp', '    iclassCounts = curvesIClassCounts(type, nvertices, wrap, g_context->attrStack.top().vstep);\n', '    iclassCounts = curvesIClassCounts(type, nvertices, wrap, g_context->attrStack.top().ustep);\n')])
lib_demo(d, r'''
#include <iostream>
#include <fstream>
#include <sstream>
#include <aqsis/ri/ri.h>
int main()
{
    RiBegin((RtToken)"o.rib");
    RiWorldBegin();
    RiBasis(RiBSplineBasis, 1, RiBezierBasis, 3);
    RtInt n[1] = {7};
    RtFloat P[21], w[7] = {11, 12, 13, 14, 15, 16, 17};
    for(int i = 0; i < 21; ++i) P[i] = i;
    RiCurves((RtToken)"cubic", 1, n, (RtToken)"nonperiodic", "P", P, "varying float width", w, RI_NULL);
    RiWorldEnd();
    RiEnd();
    std::ifstream f("o.rib"); std::stringstream s; s << f.rdbuf();
    std::cout << s.str();
    return s.str().find("13]") != std::string::npos || s.str().find("13 ]") != std::string::npos ? 0 : 1;
}
''', 'ri2rib riutil util', '')
