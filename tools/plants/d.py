import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant, render_demo, lib_demo
HEAD = '''
cat > a.rib <<EOF
Format 16 16 1
PixelSamples 1 1
PixelFilter "box" 1 1
Projection "orthographic"
'''
d = plant('c09-texture-flush', 'C09', 'two frames of one session that use different images under one texture file name', 'a later frame shows the texture of an earlier frame',
          [('libs/core/api/ri.cpp', '	QGetRenderContext()->textureCache().flush();\n\n	// Clear out point', '	if ( fFailed )\n		QGetRenderContext()->textureCache().flush();\n\n	// Clear out point')])
FR = '''FrameBegin %(n)d
Display "%(n)d.tif" "file" "rgb" "float[4] quantize" [0 0 0 0] "float dither" [0]
WorldBegin
Surface "c" "color v" [%(v)s %(v)s %(v)s]
Translate 0 0 3
Polygon "P" [-2 -2 0 2 -2 0 2 2 0 -2 2 0]
WorldEnd
FrameEnd
FrameBegin %(m)d
MakeTexture "%(n)d.tif" "t.tex" "clamp" "clamp" "box" 1 1
Display "%(m)d.txt" "log" "rgb" "float[4] quantize" [0 0 0 0] "float dither" [0]
WorldBegin
Surface "k"
Translate 0 0 3
Polygon "P" [-2 -2 0 2 -2 0 2 2 0 -2 2 0]
WorldEnd
FrameEnd
'''
render_demo(d, HEAD + FR % dict(n=1, m=2, v='.25') + FR % dict(n=3, m=4, v='.75') + '''EOF
shader c <<EOF
surface c(color v = 0;) { Ci = v; Oi = 1; }
EOF
shader k <<EOF
surface k() { Ci = color texture("t.tex", .5, .5); Oi = 1; }
EOF
render a.rib
cat 2.txt 4.txt > all.txt
awk 'NF == 5 { k = int($3*100 + .5); c[k]++ } END { for(i in c) print i, c[i]; exit !(c[25] == 256 && c[75] == 256) }' all.txt || exit 1
''')
d = plant('c12-attribute-share', 'C12', 'a user attribute set outside a block and set again inside it, looked at after the block has ended', 'the value set inside the block stays after the block',
          [('libs/core/attributes.h', '				if ( pAttr.use_count() <= 2 )', '				if ( pAttr.use_count() <= 3 )')])
render_demo(d, HEAD + '''Display "a.txt" "log" "rgb" "float[4] quantize" [0 0 0 0] "float dither" [0]
WorldBegin
Attribute "user" "float note" [.25]
Surface "k"
Translate 0 0 3
AttributeBegin
Attribute "user" "float note" [.5]
Polygon "P" [-2 -2 0 0 -2 0 0 2 0 -2 2 0]
AttributeEnd
Polygon "P" [0 -2 0 2 -2 0 2 2 0 0 2 0]
WorldEnd
EOF
shader k <<EOF
surface k() { float v = 0; attribute("user:note", v); Ci = v; Oi = 1; }
EOF
render a.rib
awk 'NF == 5 { if($1 < 8 && $3 > .49 && $3 < .51) l++; if($1 >= 8 && $3 > .24 && $3 < .26) r++ } END { print l, r; exit l != 128 || r != 128 }' a.txt || exit 1
''')
SL = '''#!/bin/bash
O=$(mktemp -d) || exit 2
trap 'rm -rf "$O"' EXIT
A=/repo/_build/main/tools/aqsl/aqsl
cd "$O" || exit 2
'''
d = plant('c18-use-count', 'C18', 'two shaders compiled by one run of aqsl, the first using a global variable that the second does not', 'the second shader claims to use the global variables of the first',
          [('libs/slcomp/parse/libslparse.cpp', '	for(TqInt i = 0; i < EnvVars_Last; ++i)\n		gStandardVars[i].ResetUseCount();', '	for(std::size_t i = 0; i < gLocalVars.size() && i < static_cast<std::size_t>(EnvVars_Last); ++i)\n		gStandardVars[i].ResetUseCount();')])
open(d + '/demo.sh', 'w').write(SL + r'''
cat > a.sl <<EOF
surface a() { Ci = Cs * s * xcomp(N); }
EOF
cat > b.sl <<EOF
surface b() { Ci = Os * t; }
EOF
$A b.sl > log 2>&1 || exit 2
mv b.slx ref.slx
$A a.sl b.sl > log 2>&1 || exit 2
cmp b.slx ref.slx || exit 1
exit 0
''')
d = plant('c18-error-lost', 'C18', 'several sources in one run, a broken one before a sound one', 'the exit status says that all were compiled',
          [('tools/aqsl/aqsl.cpp', '						codeGenerator->OutputTree( GetParseTree(), g_stroutname );\n', '					{ codeGenerator->OutputTree( GetParseTree(), g_stroutname ); error = false; }\n')])
open(d + '/demo.sh', 'w').write(SL + r'''
printf 'surface a()\n{\n    float x;\n    x = 1 + ;\n}\n' > a.sl
printf 'surface b()\n{\n    Ci = 1;\n}\n' > b.sl
$A a.sl b.sl > log 2>&1 && exit 1
$A b.sl a.sl > log 2>&1 && exit 1
$A b.sl > log 2>&1 || exit 1
exit 0
''')

BOOST = '-lboost_filesystem -lboost_system'
d = plant('c19-hidden-name', 'C19', 'a file whose name starts with a dot, in a directory of the search path other than the current one', 'the file is looked for in the current directory only',
          [('libs/util/file.cpp', '	if(filePath.is_absolute() || *filePath.begin() == "." || *filePath.begin() == "..")', "	if(filePath.is_absolute() || fileName[0] == '.')")])
lib_demo(d, r'''
#include <aqsis/util/file.h>
#include <cstdio>
#include <sys/stat.h>
using namespace Aqsis;
static void touch(const char* n) { FILE* f = fopen(n, "w"); fclose(f); }
int main()
{
    mkdir("a", 0777); mkdir("b", 0777); touch("b/.x"); touch("b/y"); touch("z");
    if(native(findFileNothrow("y", "a:b")) != "b/y") return 1;
    if(native(findFileNothrow("./z", "a:b")) != "./z") return 1;
    if(native(findFileNothrow("./y", "a:b")) != "") return 1;
    if(native(findFileNothrow(".x", "a:b")) != "b/.x") return 1;
    return 0;
}
''', 'util', BOOST)
d = plant('c19-trailing-text', 'C19', 'a floating point argument followed by other characters', 'the number at the start is taken, the rest is ignored',
          [('libs/util/argparse.cpp', '''	ArgParse::apfloat newvalue = (ArgParse::apfloat) strtod(arg.c_str(),
	                             &endptr);
	if (*endptr != '\\0' || arg.length() == 0)''', '''	ArgParse::apfloat newvalue = (ArgParse::apfloat) strtod(arg.c_str(),
	                             &endptr);
	if (endptr == arg.c_str())''')])
lib_demo(d, r'''
#include <aqsis/aqsis.h>
#include <aqsis/util/argparse.h>
static bool ok(const char* v, double want)
{
    double x = -1;
    ArgParse ap;
    ap.argFloat("f", "", &x);
    const char* a[] = {"-f", v};
    bool r = ap.parse(2, a);
    return r && x == want;
}
int main()
{
    if(!ok("1.5", 1.5) || !ok("-2e3", -2e3)) return 1;
    if(ok("1.5x", 1.5) || ok("3,4", 3) || ok("", 0) || ok("1.2.3", 1.2)) return 1;
    return 0;
}
''', 'util', BOOST)
d = plant('c19-stdout-copy', 'C19', 'a child program that closes its standard output and goes on running', 'the parent does not see the end of the output until the child exits',
          [('libs/util/popen.cpp', '''				if(::dup2(newStdout, STDOUT_FILENO) == -1)
					return false;
				::close(newStdout);
''', '''				if(::dup2(newStdout, STDOUT_FILENO) == -1)
					return false;
''')])
lib_demo(d, r'''
#include <aqsis/aqsis.h>
#include <aqsis/util/popen.h>
#include <ctime>
#include <string>
#include <vector>
#include <unistd.h>
using namespace Aqsis;
int main()
{
    std::vector<std::string> a = {"sh", "-c", "echo hello; exec 1>&-; exec sleep 8"};
    TqPopenStream p("sh", a);
    std::string l;
    time_t t = time(0);
    std::getline(p, l);
    if(l != "hello") return 1;
    while(std::getline(p, l)) ;
    return time(0) - t > 4;
}
''', 'util', BOOST)
