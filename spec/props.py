# Single source of properties.jsonl and MANIFEST.json (python3 tools/gen.py).
# P(id, title, statement, over, text, why, files, mechanism, technique, note)
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=(), hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, observe=list(observe), hook=hook))


P('C01', 'RIB written by the writer reads back as the same calls',
  'Any sequence of interface calls serialised by the RIB writer, in ASCII or binary, plain or gzip-compressed, with any indentation, '
  'and then read by the RIB parser is delivered as the same sequence of calls with the same arguments, arrays and typed parameters. '
  'Integers, strings and binary floats come back exactly, ASCII floats to the precision of the text.',
  ['inputs', 'configurations'],
  'every request of the interface, all argument and parameter values, every writer format and every chunking of the stream',
  'The unit tests write and read single hand-written requests; the round trip over all requests, token lengths, encodings and read chunk sizes is never run.',
  ['libs/riutil/ribwriter.cpp', 'libs/riutil/ribparser.cpp', 'libs/riutil/ribtokenizer.cpp', 'libs/riutil/riblexer.cpp', 'libs/riutil/primvartoken.cpp'],
  [('RIB formatters and writer', 'libs/riutil/ribwriter.cpp'), ('tokenizer, lexer and request handlers', 'libs/riutil/ribtokenizer.cpp, riblexer.cpp, ribparser.cpp')],
  'round-trip trace monitor over random call sequences, ASan/UBSan build',
  'Sampled call sequences; trusts the recording renderer and the interface table in spec/ri.xml.')

P('C02', 'Every legal RIB encoding of a request stream reads as the same calls',
  'A RIB stream delivers to the renderer exactly the requests it encodes, in order, whichever legal encoding is used for each token: '
  'ASCII or binary numbers, fixed point, coded strings and requests, float arrays, bracketed or bare arguments, comments, line endings, '
  'gzip, end-of-stream byte, and whatever the sizes of the pieces in which the stream arrives.',
  ['inputs', 'configurations'],
  'all request sequences, all per-token encoding choices of the RIB definition, all input chunkings',
  'The tests feed a few fixed strings per token kind; combinations of encodings, definitions between tokens and buffer boundaries are not reached.',
  ['libs/riutil/ribtokenizer.cpp', 'libs/riutil/riblexer.cpp', 'libs/riutil/ribparser.cpp', 'libs/riutil/ribinputbuffer.cpp', 'libs/riutil/tokendictionary.cpp'],
  [('token scanning and binary decoding', 'libs/riutil/ribtokenizer.cpp'), ('argument forms', 'libs/riutil/riblexer.cpp, ribparser.cpp')],
  'differential trace monitor against an independent RIB encoder, ASan/UBSan build',
  'Sampled streams; trusts the independent encoder in lib/ribenc.py (integers of fewer than four bytes are unsigned as documented in the reader).')

P('C03', 'Broken RIB input is reported at its place and never disturbs its surroundings',
  'For any byte sequence given to the RIB reader - malformed requests, bad tokens, truncation at any byte, damaged binary - reading terminates without '
  'memory errors or undefined behaviour; each request with a syntax error is reported once, with the stream name, line and column of the offending token, '
  'and has no other effect; every well-formed request before and after it is delivered unchanged; and the outcome does not depend on how the stream is split into reads.',
  ['inputs', 'configurations'],
  'all byte streams, all truncation points, all read chunkings, all error kinds and positions',
  'Tests feed a handful of broken strings to the lexer; arbitrary corruption, the resynchronisation point and reported positions are not sampled.',
  ['libs/riutil/ribparser.cpp', 'libs/riutil/riblexer.cpp', 'libs/riutil/ribtokenizer.cpp', 'libs/riutil/ribinputbuffer.h'],
  [('error recovery: discardUntilRequest', 'libs/riutil/riblexer.cpp'), ('error reporting per request', 'libs/riutil/ribparser.cpp')],
  'trace monitor with injected input faults (mutation, truncation, re-chunking), ASan/UBSan build',
  'Sampled faults; every truncation point of the sampled streams.')

P('C04', 'Conditionals, inline archives and objects replay exactly the recorded requests',
  'For any nesting of IfBegin/ElseIf/Else/IfEnd, inline archives, object definitions, instances and ReadArchive, through any chain of the filters that implement them, '
  'the renderer receives exactly the requests of the branches whose condition holds and, at each instance, exactly the recorded requests with their arguments, '
  'in order; definitions themselves reach it only as documented, unknown names are reported, and recording, redefining or replaying within a replay never corrupts memory.',
  ['inputs', 'histories'],
  'all nestings, definition/instantiation/redefinition histories, filter chains, conditions over any option values',
  'No unit test replays a nested or redefined archive, and none combines archives with conditionals.',
  ['libs/riutil/renderutil_filter.cpp', 'libs/riutil/ricxx_cache.h', 'libs/riutil/multistringbuffer.h'],
  [('call caching and replay', 'libs/riutil/ricxx_cache.h, renderutil_filter.cpp'), ('condition evaluation and nesting', 'libs/riutil/renderutil_filter.cpp')],
  'online trace-specification monitor against an executable model, ASan/UBSan build',
  'Sampled programs; the model in checks/c04.py is the statement of the semantics.')

P('C05', 'Invalid interface calls are rejected and reported, valid ones passed unchanged',
  'The validation filter passes to the renderer, unchanged and in order, every call that is valid in the current scope and whose arguments meet the documented '
  'ranges, array lengths and required parameters, and drops with a reported error every other call, for every history of nested scopes; over-long arrays are '
  'accepted with a warning. A rejected call leaves the scope state as it was.',
  ['inputs', 'histories'],
  'all call sequences and scope nestings, all argument values and array lengths, strict and relaxed attribute state',
  'Tests cover about ten fixed calls; the product of scopes, ranges, interpolation classes and basis steps is not enumerated.',
  ['libs/riutil/ricxx_validate.cpp', 'libs/riutil/ri.xml'],
  [('scope stack, range and length checks', 'libs/riutil/ricxx_validate.cpp')],
  'online trace-specification monitor against a model built from the interface description, ASan/UBSan build',
  'Sampled call histories; the snapshot spec/ri.xml states scopes, ranges and lengths.')


P('C06', 'Every display receives every pixel of its window exactly once, in its format',
  'For any scene, any set of displays, modes, quantisations, bucket sizes, filters, crop windows, frames and worlds, each open display is opened once per world with the '
  'size, origin, channels and user parameters of its request, receives each pixel of the crop window exactly once (whole scanlines in ascending order if it asked for them), '
  'with values that are the quantisation of the same image every other display receives, in the data format it chose, nothing outside the raster, and is closed once; '
  'a display that refuses to open or has no driver receives nothing and leaves the others undisturbed.',
  ['inputs', 'configurations', 'histories'],
  'all image and bucket sizes, crop windows, channel sets, quantisation settings, driver answers, sequences of frames and worlds',
  'No test of the repository renders anything; the display manager is exercised only by hand.',
  ['libs/core/ddmanager/ddmanager.cpp', 'libs/core/ddmanager/ddmanager.h', 'libs/core/imagebuffer.cpp', 'libs/core/channelbuffer.h', 'libs/core/bucketprocessor.cpp'],
  [('display opening, quantisation, scanline collation', 'libs/core/ddmanager/ddmanager.cpp'), ('bucket loop and crop window', 'libs/core/imagebuffer.cpp, bucketprocessor.cpp')],
  'delivery-log monitor (exactly-once, ordering, value conservation) on a recording display driver, ASan/UBSan build',
  'Sampled scenes; quantisation checked against the float values delivered to another display in the same render.')

P('C07', 'Every primitive is drawn exactly where its definition puts it',
  'Under any sequence of transformations, any projection, screen window and format, the pixels whose sample lies on a quadric, (general) polygon, polygon soup, bilinear or bicubic '
  'patch or patch mesh of any basis, NURBS patch or Catmull-Clark subdivision mesh show that surface - its colour, full coverage and camera-space depth of the nearest surface - '
  'and all other pixels show the background.',
  ['inputs'],
  'all primitive parameters, control nets, knot vectors, topologies, transformations and cameras',
  'No test of the repository renders anything, and geometry has no unit tests.',
  ['libs/core/geometry/quadrics.cpp', 'libs/core/geometry/patch.cpp', 'libs/core/geometry/nurbs.cpp', 'libs/core/geometry/polygon.cpp', 'libs/core/geometry/subdivision2.cpp', 'libs/core/bucketprocessor.cpp'],
  [('dicing and splitting of primitives', 'libs/core/geometry'), ('transformations and projection', 'libs/core/options.cpp, transform.cpp'), ('sampling', 'libs/core/bucketprocessor.cpp')],
  'image monitor: every delivered pixel judged by an independent ray-casting reference, ASan/UBSan build',
  'Sampled scenes; pixels within half a pixel of an edge are not judged; at most one in a hundred pixels of a scene may be missed between grids; crease tags excluded (documented limitation).')

P('C08', 'Surfaces hide, cover and composite in depth order with the right depth value',
  'At every sample the surfaces in front composite over those behind by their opacity in exact depth order, whatever the order of declaration; alpha is the mean opacity; matte objects '
  'hide without contributing; one-sided surfaces are drawn only where their outside (as set by Orientation, ReverseOrientation and the handedness of the transformation) faces the camera; '
  'nothing in front of the near or behind the far clipping plane appears; and the depth channel follows the depth filter and threshold.',
  ['inputs', 'configurations'],
  'all arrangements of overlapping surfaces, opacities, matte and sidedness attributes, orientations, clipping ranges, depth filters and thresholds',
  'No test of the repository renders anything; compositing code has no unit tests.',
  ['libs/core/imagepixel.cpp', 'libs/core/bucketprocessor.cpp', 'libs/core/micropolygon.cpp', 'libs/core/occlusion.cpp'],
  [('sample storage, occlusion culling', 'libs/core/bucketprocessor.cpp'), ('compositing and depth filters', 'libs/core/imagepixel.cpp'), ('back-face culling', 'libs/core/micropolygon.cpp')],
  'image monitor: every delivered pixel judged by an independent ray-casting and compositing reference, ASan/UBSan build',
  'Sampled scenes; pixels near edges, intersections or clipping planes are not judged; at most one in a hundred pixels of a scene may be missed between grids.')

P('C09', 'The image does not depend on how the work is divided or what was rendered before',
  'For any scene the delivered pixels are the same for every bucket size, bucket order and crop window (inside the window), for every order of the objects within the world block, for any '
  'wrapping in attribute or transform blocks, with or without further displays, when rendered again, and when rendered as a later frame after any other frame in the same process.',
  ['inputs', 'configurations', 'histories'],
  'all scenes over all primitives, shaders, lights, transparency, motion, depth of field and CSG; all divisions of the raster; all preceding frames',
  'No test of the repository renders anything; caching, occlusion culling and posting of surfaces to buckets are only exercised by whole renders.',
  ['libs/core/imagebuffer.cpp', 'libs/core/bucketprocessor.cpp', 'libs/core/occlusion.cpp', 'libs/core/renderer.cpp', 'libs/core/bucket.cpp'],
  [('posting surfaces and micropolygons to buckets', 'libs/core/imagebuffer.cpp, bucketprocessor.cpp'), ('occlusion culling', 'libs/core/occlusion.cpp'), ('state between frames', 'libs/core/renderer.cpp')],
  'metamorphic image monitor: pixel-exact comparison of renders under varied division, order and history, ASan/UBSan build',
  'Sampled scenes and variants. Noise-based jitter is switched off so that samples are comparable.')

P('C10', 'Compiled shaders compute what the shading language defines',
  'For every legal shader, what aqsl compiles and the shader VM runs computes at every shading point the value the shading language defines - expressions and their precedence, type casts, '
  'varying and uniform variables, conditionals, loops with break and continue to any depth, arrays, compound assignments, user functions with value and output parameters, shader parameters - '
  'independently at each point, whatever the other points of the grid do.',
  ['inputs'],
  'all shader programs, parameter values, grid sizes and divergence of control flow between points',
  'No test of the repository compiles or runs a shader; the grammar, type resolution, code generation and execution only meet in whole renders.',
  ['libs/slcomp/parse/parser.yy', 'libs/slcomp/parse/parsenode.cpp', 'libs/slcomp/parse/typecheck.cpp', 'libs/slcomp/backend/vmoutput.cpp', 'libs/shadervm/shadervm.cpp', 'libs/shadervm/shadervm1.cpp', 'libs/shadervm/shaderstack.cpp'],
  [('parser and type resolution', 'libs/slcomp/parse'), ('code generation and function inlining', 'libs/slcomp/backend/vmoutput.cpp'), ('running state, stack and variables', 'libs/shadervm')],
  'output monitor: every output at every pixel of random shaders judged by an independent scalar interpreter at the observed s and t, ASan/UBSan build',
  'Sampled programs. A point is judged only where double, single and perturbed single precision agree.')

P('C11', 'Built-in shading functions return what the language defines',
  'Every built-in function of the shading language - mathematics, vectors, matrices, colour space conversion, splines, derivatives, strings and noise - returns the value its definition gives '
  'for its arguments at each shading point, for every combination of uniform and varying arguments and under divergent control flow; noise functions stay in range, are continuous, '
  'periodic with the given period (pnoise) and constant per cell (cellnoise).',
  ['inputs'],
  'all functions, argument types, classes and values, grid sizes and running states',
  'No test of the repository runs a shader; only a few math helpers have unit tests.',
  ['libs/shadervm/shaderexecenv/shadeops_math.cpp', 'libs/shadervm/shaderexecenv/shadeops_matrx.cpp', 'libs/shadervm/shaderexecenv/shadeops_deriv.cpp', 'libs/shadervm/shaderexecenv/shadeops_rand.cpp',
   'libs/shadervm/shaderexecenv/shadeops_comp.cpp', 'libs/shadervm/shaderexecenv/shadeops_text.cpp', 'libs/math/noise1234.cpp', 'libs/math/color.cpp', 'include/aqsis/math/spline.h', 'libs/slcomp/parse/funcdef.cpp'],
  [('built-in functions', 'libs/shadervm/shaderexecenv'), ('noise, colour conversion, splines', 'libs/math'), ('overloads', 'libs/slcomp/parse/funcdef.cpp')],
  'output monitor: every result at every pixel of random calls judged by independent definitions at the observed s and t, ASan/UBSan build',
  'Sampled arguments; results near discontinuities or ill-conditioned are not judged; noise only by its invariants; matrix products compose as aqsis defines (right operand first).')

P('C12', 'Parameters, names and scene state reach shaders unchanged',
  'Inside a shader every name means what the scene and the shader source say: a parameter has the value given in the shader call, else the value of the primitive variable of that name, else its default, transformed '
  'from the space it was given in; attribute(), option(), displacement(), atmosphere(), shadername() and the named coordinate systems answer with the value last set in the enclosing scope for exactly that name, type '
  'and array size, and leave the variable alone otherwise; no other name, however similar, is affected, and leaving a scope restores what it hid.',
  ['inputs', 'histories'],
  'all sequences of state changes and scopes, all names (prefixes, case variants, hash collisions), types, array sizes and storage classes',
  'No test of the repository renders a scene; these guarantees span the parser, state stacks, shader VM and dicing.',
  ['libs/core/api/ri.cpp', 'libs/core/attributes.cpp', 'libs/core/options.cpp', 'libs/core/renderer.cpp', 'libs/core/parameters.h', 'libs/shadervm/shadervm.cpp', 'libs/shadervm/shaderexecenv/shadeops_inter.cpp',
   'libs/shadervm/shaderexecenv/shadeops_matrx.cpp', 'include/aqsis/util/sstring.h'],
  [('graphics state', 'libs/core/api/ri.cpp'), ('shader parameters', 'libs/shadervm/shadervm.cpp'), ('message passing', 'libs/shadervm/shaderexecenv/shadeops_inter.cpp')],
  'state monitor: shaders in random scenes emit what they see of every name into recorded channels, compared with an independent model of the graphics state, ASan/UBSan build',
  'Sampled scenes and names; user attributes only of the types aqsis implements (float, string); coordinate systems named before WorldBegin and parameters of shaders set outside the world are not judged.')

P('C13', 'Image files hold the pixels written, and damaged files do no harm',
  'An image written through the texture library and read back, whole or in any pieces, has exactly the pixels, channels, sizes and metadata written, for every pixel type, channel list, size, tile size and compression; '
  'a legal TIFF, PNG or OpenEXR file written by another program is read with its pixels intact whatever part is asked for; and a damaged, truncated or mistyped file is refused with an error or read as something, '
  'but never makes the library crash, read or write outside its buffers, overflow or loop.',
  ['inputs', 'histories'],
  'all images (sizes, pixel types, channels, metadata, compressions, tilings), all partitions into read and write calls, all files whether well formed or not',
  'Tests read a few fixed files whole; partial access, foreign encodings and damaged files are combinatorial.',
  ['libs/tex/io/tiffinputfile.cpp', 'libs/tex/io/tiffoutputfile.cpp', 'libs/tex/io/tiffdirhandle.cpp', 'libs/tex/io/tiledtiffinputfile.cpp', 'libs/tex/io/pnginputfile.cpp', 'libs/tex/io/exrinputfile.cpp',
   'libs/tex/io/zinputfile.cpp', 'libs/tex/io/texfileheader.cpp', 'include/aqsis/tex/io/itexinputfile.h', 'libs/tex/buffers/mixedimagebuffer.cpp', 'libs/tex/io/magicnumber.cpp'],
  [('reading images', 'libs/tex/io/tiffinputfile.cpp'), ('writing images', 'libs/tex/io/tiffoutputfile.cpp'), ('image buffers', 'libs/tex/buffers/mixedimagebuffer.cpp')],
  'round-trip monitor over random images and call partitions, differential reading of files written directly by libtiff/libpng/OpenEXR, damaged-file fuzzing, all in an ASan/UBSan build',
  'Sampled images of moderate size; pixel formats aqsis reads through the generic RGBA interface of libtiff are compared with that interface.')

P('C14', 'Texture, environment and shadow maps are filtered as documented',
  'Making a texture downsamples the image with the named filter and wrap modes into a complete mipmap; looking it up returns the average of the image under the elliptical Gaussian of the sampled region, widened by width and '
  'blur, with the wrap modes, channels and fill asked for, within the range of the image and independent of earlier lookups; environment maps (cube faces and latitude-longitude) return the image in the direction asked for; '
  'shadow maps return the fraction of the region further from the light than the map, 0 outside it, and combine several views; lookups never overrun or produce NaN for any finite region.',
  ['inputs', 'histories'],
  'all images, filters, wrap modes, sampled regions and sampling options, and all orders of lookups',
  'Values of filtered lookups depend continuously on many parameters; tests check only a few helper classes.',
  ['libs/tex/maketexture/maketexture.cpp', 'libs/tex/maketexture/downsample.h', 'libs/tex/filtering/mipmap.h', 'libs/tex/filtering/ewafilter.h', 'libs/tex/filtering/ewafilter.cpp', 'include/aqsis/tex/filtering/filtertexture.h',
   'include/aqsis/tex/filtering/samplequad.h', 'libs/tex/filtering/texturesampler.h', 'libs/tex/filtering/cubeenvironmentsampler.h', 'libs/tex/filtering/latlongenvironmentsampler.h',
   'libs/tex/filtering/shadowsampler.cpp', 'libs/tex/filtering/occlusionsampler.cpp', 'include/aqsis/tex/buffers/tilearray.h', 'libs/tex/filtering/texturecache.cpp'],
  [('making textures', 'libs/tex/maketexture/maketexture.cpp'), ('looking them up', 'libs/tex/filtering/mipmap.h'), ('shadow maps', 'libs/tex/filtering/shadowsampler.cpp')],
  'differential monitor: mipmaps and lookups of random maps compared with an independent downsampler, EWA filter and percentage closer filter, metamorphic checks on order and range, ASan/UBSan build',
  'Sampled maps and regions; where levels mix or the filter is clamped only the range, constant, ramp and wave responses are judged; occlusion is judged only where all views agree.')

P('C15', 'The mathematics library computes what its names say',
  'Every history of matrix operations (scales, rotations, translations, shears, skews, products, sums, transposes, inverses, self-products) gives the matrix, determinant and transformed vectors of exact arithmetic to within rounding, and '
  'no matrix is taken for the identity that is not; vector, colour and colour space arithmetic match their formulas and round trip; cubic splines of every basis interpolate their control points by the basis; noise lies in 0..1, is '
  'continuous, repeats with the period asked for, and is one half on the lattice; cell noise is constant in each unit cell; random numbers follow the generator for their seed.',
  ['inputs', 'histories'],
  'all histories of operations, all finite operands, positions, periods, control points and seeds',
  'Tests compare a few hand-picked operands; wrong signs, aliasing and identity flags only show for particular histories.',
  ['include/aqsis/math/matrix.h', 'libs/math/matrix.cpp', 'include/aqsis/math/matrix2d.h', 'include/aqsis/math/vector3d.h', 'include/aqsis/math/vector4d.h', 'include/aqsis/math/color.h', 'libs/math/color.cpp',
   'include/aqsis/math/math.h', 'libs/math/spline.cpp', 'libs/math/noise.cpp', 'libs/math/noise1234.cpp', 'libs/math/cellnoise.cpp', 'libs/math/random.cpp', 'libs/math/lowdiscrep.cpp'],
  [('matrices and vectors', 'include/aqsis/math/matrix.h'), ('noise', 'libs/math/noise.cpp'), ('random numbers', 'libs/math/random.cpp')],
  'differential monitor: random operation histories of the real library compared step by step with double precision references and defining relations, ASan/UBSan build',
  'Sampled histories and operands of moderate size; near-singular matrices are not inverted.')

P('C16', 'The C interface and libri2rib mean the same calls as the C++ interface',
  'Every valid call made through the C functions, in the array form or the variable argument form, with declared or inline declared parameter tokens, reaches the C++ interface as exactly the same request with the same values and array '
  'lengths (implied by counts, topology and the current basis steps), with object and light handles standing for the object or light they were returned for; a bad token is reported and the call dropped without other effect; libri2rib '
  'writes each context to its own file, in the format asked for, such that reading it gives back the calls made, however contexts are interleaved.',
  ['inputs', 'histories'],
  'all streams of valid calls, parameter lists, argument forms, handle uses, contexts and output options',
  'There are more than a hundred entry points, each in two forms, with array lengths depending on earlier calls; tests call a few of them.',
  ['libs/riutil/ri2ricxx.cpp', 'libs/ri2rib/ri2rib.cpp', 'libs/riutil/risyms.cpp', 'libs/riutil/primvartoken.cpp', 'libs/riutil/tokendictionary.cpp', 'include/aqsis/riutil/interpclasscounts.h', 'libs/riutil/ribwriter.cpp'],
  [('C functions', 'libs/riutil/ri2ricxx.cpp'), ('RIB library', 'libs/ri2rib/ri2rib.cpp')],
  'trace monitor: the real C functions driven with random valid call streams (exact-size heap arrays under ASan), the requests arriving behind them or read back from the files written compared call by call',
  'Sampled streams of up to 40 calls; callbacks of ReadArchive are not exercised; ASCII output compared to 2e-6.')

P('C17', 'Display drivers store every pixel they are sent, where it belongs',
  'For every image size, crop window, list of channels in any order, pixel type and driver option, and for every division of the image into rectangles sent in any order (whole lines in order when the driver asks for them), '
  'the file left by the file/tiff, zfile, shadow, exr and bmp display drivers opens in other programs and holds exactly the pixels sent, each in its channel and place, in the type asked for (rounded to half where that is asked for, '
  'too large values becoming infinite, never zero), with the size, crop position, transformation matrices and texts it was given; layers sent to one exr file and maps appended to one shadow file are all kept; several images may be open at once '
  'without mixing; and no driver reads or writes outside its buffers.',
  ['inputs', 'histories'],
  'all image sizes, crop windows, channel lists, pixel types, compressions and texts; all divisions and orders of the data calls; all interleavings of several open images',
  'The tests contain no display driver; what is stored depends on the combination of crop, channel order, type and the order in which the data arrives.',
  ['tools/displays/file/display.cpp', 'tools/displays/exr/d_exr.cpp', 'tools/displays/sdcBMP/d_sdcBMP.cpp', 'tools/displays/dspyutil/dspyhlpr.c'],
  [('TIFF, depth and shadow files', 'tools/displays/file/display.cpp'), ('OpenEXR files', 'tools/displays/exr/d_exr.cpp'), ('bitmaps', 'tools/displays/sdcBMP/d_sdcBMP.cpp')],
  'the driver plugins are loaded and driven through their C interface with random images and call histories in an ASan/UBSan build; the files are read back with libtiff/OpenEXR or byte by byte and compared pixel by pixel with what was sent',
  'Sampled images of up to 70x70 pixels. JPEG compression (lossy) and the xpm, piqsl and Windows drivers are not covered; bmp only with 8 bit data.')

P('C18', 'The shader compiler accounts for what it did; shaders describe themselves truly',
  'For every source text, aqsl ends without memory errors or endless loops; it exits with status 0 exactly when it reported no error and wrote the compiled shader (sources that define no shader apart), and otherwise writes no output, '
  'leaves earlier output alone and reports the error with the file and line it is on, whatever comments, macros, conditionals, line continuations and included headers come before it. Several sources compiled in one run, some with errors, '
  'give the same compiled shaders as each compiled alone; layout, comments and macros (in the source or from -D, -U, -I) do not change the result. For every compiled shader aqsltell reports the kind of shader and, in order, the name, '
  'storage (parameter or output parameter), detail, type, array length and default value of each parameter as the source declares it.',
  ['inputs', 'histories'],
  'all source texts, all placements of errors, all parameter lists, all sequences of sources in one run',
  'The tests compile no shader; state kept between sources, dangling names and misplaced lines only show with particular combinations of includes, errors and order.',
  ['tools/aqsl/aqsl.cpp', 'libs/slcomp/parse/parser.yy', 'libs/slcomp/parse/scanner.ll', 'libs/slcomp/parse/libslparse.cpp', 'libs/slcomp/parse/typecheck.cpp', 'libs/slcomp/backend/vmoutput.cpp', 'libs/slxargs/slx.cpp', 'tools/aqsltell/aqsltell.cpp'],
  [('driver and preprocessing', 'tools/aqsl/aqsl.cpp'), ('scanner and parser', 'libs/slcomp/parse/parser.yy'), ('parameter description', 'libs/slxargs/slx.cpp')],
  'aqsl and aqsltell, built with ASan/UBSan, are run on mutated shaders, shaders with an error planted on a known line, random parameter lists, sets of sources and re-laid-out sources; exit status, files left, reported positions, '
  'descriptions and compiled bytes are compared with what the generator knows',
  'Sampled sources. Errors are single statements; macros that themselves contain the error and #line in the source are not judged for position. Whether legal shaders mean the right thing is C10.')

P('C19', 'Command lines, search paths and child programs do what they say',
  'For every set of options and every command line, argument parsing either reports an error or stores exactly the values the line gives, in order, converted from their whole text and in range, and returns the other arguments in order; '
  'an option with a fixed number of arguments takes that many and no more; it never reads outside the arguments. For every search path, &, @ and %NAME% are replaced by the old path, the default path and the environment variable and all else is kept; '
  'a file is found in the first directory of the path that has it as a regular file, whatever the other entries are (missing, inaccessible, dangling), and names that are absolute or start with ./ or ../ are looked up only there; patterns give the sorted matching files. '
  'A child program gets exactly its arguments and no descriptors but its three; all bytes written reach it and all it writes are read, once and in order, whatever signals arrive; it sees the end of its input when the parent closes it, whatever other children are running; '
  'a program that cannot be started is reported, and leaves no descriptor, no process and no duplicated output behind. Bit vectors of one length obey the laws of sets.',
  ['inputs', 'schedules', 'fault_sequences', 'histories'],
  'all option sets and argument lists; all paths, environments and directory trees; all sequences of starting, feeding, reading and closing several child programs, with failing starts and signals at any point',
  'The tests parse a few fixed lines and echo one short message through one child; conversions at the edge, exhausted argument counts, broken directories, several children, failed starts and interrupted writes need combinations they do not sample.',
  ['libs/util/argparse.cpp', 'libs/util/file.cpp', 'include/aqsis/util/file.h', 'libs/util/popen.cpp', 'include/aqsis/util/popen.h', 'libs/util/bitvector.cpp', 'include/aqsis/util/bitvector.h'],
  [('command lines', 'libs/util/argparse.cpp'), ('search paths', 'libs/util/file.cpp'), ('child programs', 'libs/util/popen.cpp')],
  'a driver linked to libs/util (ASan/UBSan) is fed random option sets and command lines, paths in random directory trees, and scripts of parents with several instrumented children under injected signals and failing starts; replies, descriptors, processes and buffered output are compared with a model in the check',
  'Sampled. An option with a fixed number of arguments given more than once is not judged. Windows paths are not covered.')

