// generated by gen_ri.py from spec/ri.xml
struct Rec : public Aqsis::Ri::Renderer {
  Log& log; int ncol; explicit Rec(Log& l) : log(l), ncol(3) {}
  virtual RtVoid Declare(RtConstString name, RtConstString declaration) {
    log.begin("Declare");
    log.s(name);
    log.s(declaration);
    log.end();
  }
  virtual RtVoid FrameBegin(RtInt number) {
    log.begin("FrameBegin");
    log.i(number);
    log.end();
  }
  virtual RtVoid FrameEnd() {
    log.begin("FrameEnd");
    log.end();
  }
  virtual RtVoid WorldBegin() {
    log.begin("WorldBegin");
    log.end();
  }
  virtual RtVoid WorldEnd() {
    log.begin("WorldEnd");
    log.end();
  }
  virtual RtVoid IfBegin(RtConstString condition) {
    log.begin("IfBegin");
    log.s(condition);
    log.end();
  }
  virtual RtVoid ElseIf(RtConstString condition) {
    log.begin("ElseIf");
    log.s(condition);
    log.end();
  }
  virtual RtVoid Else() {
    log.begin("Else");
    log.end();
  }
  virtual RtVoid IfEnd() {
    log.begin("IfEnd");
    log.end();
  }
  virtual RtVoid Format(RtInt xresolution, RtInt yresolution, RtFloat pixelaspectratio) {
    log.begin("Format");
    log.i(xresolution);
    log.i(yresolution);
    log.f(pixelaspectratio);
    log.end();
  }
  virtual RtVoid FrameAspectRatio(RtFloat frameratio) {
    log.begin("FrameAspectRatio");
    log.f(frameratio);
    log.end();
  }
  virtual RtVoid ScreenWindow(RtFloat left, RtFloat right, RtFloat bottom, RtFloat top) {
    log.begin("ScreenWindow");
    log.f(left);
    log.f(right);
    log.f(bottom);
    log.f(top);
    log.end();
  }
  virtual RtVoid CropWindow(RtFloat xmin, RtFloat xmax, RtFloat ymin, RtFloat ymax) {
    log.begin("CropWindow");
    log.f(xmin);
    log.f(xmax);
    log.f(ymin);
    log.f(ymax);
    log.end();
  }
  virtual RtVoid Projection(RtConstToken name, const ParamList& pList) {
    log.begin("Projection");
    log.s(name);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Clipping(RtFloat cnear, RtFloat cfar) {
    log.begin("Clipping");
    log.f(cnear);
    log.f(cfar);
    log.end();
  }
  virtual RtVoid ClippingPlane(RtFloat x, RtFloat y, RtFloat z, RtFloat nx, RtFloat ny, RtFloat nz) {
    log.begin("ClippingPlane");
    log.f(x);
    log.f(y);
    log.f(z);
    log.f(nx);
    log.f(ny);
    log.f(nz);
    log.end();
  }
  virtual RtVoid DepthOfField(RtFloat fstop, RtFloat focallength, RtFloat focaldistance) {
    log.begin("DepthOfField");
    log.f(fstop);
    log.f(focallength);
    log.f(focaldistance);
    log.end();
  }
  virtual RtVoid Shutter(RtFloat opentime, RtFloat closetime) {
    log.begin("Shutter");
    log.f(opentime);
    log.f(closetime);
    log.end();
  }
  virtual RtVoid PixelVariance(RtFloat variance) {
    log.begin("PixelVariance");
    log.f(variance);
    log.end();
  }
  virtual RtVoid PixelSamples(RtFloat xsamples, RtFloat ysamples) {
    log.begin("PixelSamples");
    log.f(xsamples);
    log.f(ysamples);
    log.end();
  }
  virtual RtVoid PixelFilter(RtFilterFunc function, RtFloat xwidth, RtFloat ywidth) {
    log.begin("PixelFilter");
    log.func(filterName(function));
    log.f(xwidth);
    log.f(ywidth);
    log.end();
  }
  virtual RtVoid Exposure(RtFloat gain, RtFloat gamma) {
    log.begin("Exposure");
    log.f(gain);
    log.f(gamma);
    log.end();
  }
  virtual RtVoid Imager(RtConstToken name, const ParamList& pList) {
    log.begin("Imager");
    log.s(name);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Quantize(RtConstToken type, RtInt one, RtInt min, RtInt max, RtFloat ditheramplitude) {
    log.begin("Quantize");
    log.s(type);
    log.i(one);
    log.i(min);
    log.i(max);
    log.f(ditheramplitude);
    log.end();
  }
  virtual RtVoid Display(RtConstToken name, RtConstToken type, RtConstToken mode, const ParamList& pList) {
    log.begin("Display");
    log.s(name);
    log.s(type);
    log.s(mode);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Hider(RtConstToken name, const ParamList& pList) {
    log.begin("Hider");
    log.s(name);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid ColorSamples(const FloatArray& nRGB, const FloatArray& RGBn) {
    log.begin("ColorSamples");
    log.fa(nRGB.begin(), nRGB.size());
    log.fa(RGBn.begin(), RGBn.size());
    log.end();
    ncol = nRGB.size()/3;
  }
  virtual RtVoid RelativeDetail(RtFloat relativedetail) {
    log.begin("RelativeDetail");
    log.f(relativedetail);
    log.end();
  }
  virtual RtVoid Option(RtConstToken name, const ParamList& pList) {
    log.begin("Option");
    log.s(name);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid AttributeBegin() {
    log.begin("AttributeBegin");
    log.end();
  }
  virtual RtVoid AttributeEnd() {
    log.begin("AttributeEnd");
    log.end();
  }
  virtual RtVoid Color(RtConstColor Cq) {
    log.begin("Color");
    log.fa(reinterpret_cast<const RtFloat*>(Cq), ncol);
    log.end();
  }
  virtual RtVoid Opacity(RtConstColor Os) {
    log.begin("Opacity");
    log.fa(reinterpret_cast<const RtFloat*>(Os), ncol);
    log.end();
  }
  virtual RtVoid TextureCoordinates(RtFloat s1, RtFloat t1, RtFloat s2, RtFloat t2, RtFloat s3, RtFloat t3, RtFloat s4, RtFloat t4) {
    log.begin("TextureCoordinates");
    log.f(s1);
    log.f(t1);
    log.f(s2);
    log.f(t2);
    log.f(s3);
    log.f(t3);
    log.f(s4);
    log.f(t4);
    log.end();
  }
  virtual RtVoid LightSource(RtConstToken shadername, RtConstToken name, const ParamList& pList) {
    log.begin("LightSource");
    log.s(shadername);
    log.s(name);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid AreaLightSource(RtConstToken shadername, RtConstToken name, const ParamList& pList) {
    log.begin("AreaLightSource");
    log.s(shadername);
    log.s(name);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Illuminate(RtConstToken name, RtBoolean onoff) {
    log.begin("Illuminate");
    log.s(name);
    log.i(onoff);
    log.end();
  }
  virtual RtVoid Surface(RtConstToken name, const ParamList& pList) {
    log.begin("Surface");
    log.s(name);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Displacement(RtConstToken name, const ParamList& pList) {
    log.begin("Displacement");
    log.s(name);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Atmosphere(RtConstToken name, const ParamList& pList) {
    log.begin("Atmosphere");
    log.s(name);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Interior(RtConstToken name, const ParamList& pList) {
    log.begin("Interior");
    log.s(name);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Exterior(RtConstToken name, const ParamList& pList) {
    log.begin("Exterior");
    log.s(name);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid ShaderLayer(RtConstToken type, RtConstToken name, RtConstToken layername, const ParamList& pList) {
    log.begin("ShaderLayer");
    log.s(type);
    log.s(name);
    log.s(layername);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid ConnectShaderLayers(RtConstToken type, RtConstToken layer1, RtConstToken variable1, RtConstToken layer2, RtConstToken variable2) {
    log.begin("ConnectShaderLayers");
    log.s(type);
    log.s(layer1);
    log.s(variable1);
    log.s(layer2);
    log.s(variable2);
    log.end();
  }
  virtual RtVoid ShadingRate(RtFloat size) {
    log.begin("ShadingRate");
    log.f(size);
    log.end();
  }
  virtual RtVoid ShadingInterpolation(RtConstToken type) {
    log.begin("ShadingInterpolation");
    log.s(type);
    log.end();
  }
  virtual RtVoid Matte(RtBoolean onoff) {
    log.begin("Matte");
    log.i(onoff);
    log.end();
  }
  virtual RtVoid Bound(RtConstBound bound) {
    log.begin("Bound");
    log.fa(reinterpret_cast<const RtFloat*>(bound), 6);
    log.end();
  }
  virtual RtVoid Detail(RtConstBound bound) {
    log.begin("Detail");
    log.fa(reinterpret_cast<const RtFloat*>(bound), 6);
    log.end();
  }
  virtual RtVoid DetailRange(RtFloat offlow, RtFloat onlow, RtFloat onhigh, RtFloat offhigh) {
    log.begin("DetailRange");
    log.f(offlow);
    log.f(onlow);
    log.f(onhigh);
    log.f(offhigh);
    log.end();
  }
  virtual RtVoid GeometricApproximation(RtConstToken type, RtFloat value) {
    log.begin("GeometricApproximation");
    log.s(type);
    log.f(value);
    log.end();
  }
  virtual RtVoid Orientation(RtConstToken orientation) {
    log.begin("Orientation");
    log.s(orientation);
    log.end();
  }
  virtual RtVoid ReverseOrientation() {
    log.begin("ReverseOrientation");
    log.end();
  }
  virtual RtVoid Sides(RtInt nsides) {
    log.begin("Sides");
    log.i(nsides);
    log.end();
  }
  virtual RtVoid Identity() {
    log.begin("Identity");
    log.end();
  }
  virtual RtVoid Transform(RtConstMatrix transform) {
    log.begin("Transform");
    log.fa(reinterpret_cast<const RtFloat*>(transform), 16);
    log.end();
  }
  virtual RtVoid ConcatTransform(RtConstMatrix transform) {
    log.begin("ConcatTransform");
    log.fa(reinterpret_cast<const RtFloat*>(transform), 16);
    log.end();
  }
  virtual RtVoid Perspective(RtFloat fov) {
    log.begin("Perspective");
    log.f(fov);
    log.end();
  }
  virtual RtVoid Translate(RtFloat dx, RtFloat dy, RtFloat dz) {
    log.begin("Translate");
    log.f(dx);
    log.f(dy);
    log.f(dz);
    log.end();
  }
  virtual RtVoid Rotate(RtFloat angle, RtFloat dx, RtFloat dy, RtFloat dz) {
    log.begin("Rotate");
    log.f(angle);
    log.f(dx);
    log.f(dy);
    log.f(dz);
    log.end();
  }
  virtual RtVoid Scale(RtFloat sx, RtFloat sy, RtFloat sz) {
    log.begin("Scale");
    log.f(sx);
    log.f(sy);
    log.f(sz);
    log.end();
  }
  virtual RtVoid Skew(RtFloat angle, RtFloat dx1, RtFloat dy1, RtFloat dz1, RtFloat dx2, RtFloat dy2, RtFloat dz2) {
    log.begin("Skew");
    log.f(angle);
    log.f(dx1);
    log.f(dy1);
    log.f(dz1);
    log.f(dx2);
    log.f(dy2);
    log.f(dz2);
    log.end();
  }
  virtual RtVoid CoordinateSystem(RtConstToken space) {
    log.begin("CoordinateSystem");
    log.s(space);
    log.end();
  }
  virtual RtVoid CoordSysTransform(RtConstToken space) {
    log.begin("CoordSysTransform");
    log.s(space);
    log.end();
  }
  virtual RtVoid TransformBegin() {
    log.begin("TransformBegin");
    log.end();
  }
  virtual RtVoid TransformEnd() {
    log.begin("TransformEnd");
    log.end();
  }
  virtual RtVoid Resource(RtConstToken handle, RtConstToken type, const ParamList& pList) {
    log.begin("Resource");
    log.s(handle);
    log.s(type);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid ResourceBegin() {
    log.begin("ResourceBegin");
    log.end();
  }
  virtual RtVoid ResourceEnd() {
    log.begin("ResourceEnd");
    log.end();
  }
  virtual RtVoid Attribute(RtConstToken name, const ParamList& pList) {
    log.begin("Attribute");
    log.s(name);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Polygon(const ParamList& pList) {
    log.begin("Polygon");
    log.plist(pList);
    log.end();
  }
  virtual RtVoid GeneralPolygon(const IntArray& nverts, const ParamList& pList) {
    log.begin("GeneralPolygon");
    log.ia(nverts);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid PointsPolygons(const IntArray& nverts, const IntArray& verts, const ParamList& pList) {
    log.begin("PointsPolygons");
    log.ia(nverts);
    log.ia(verts);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid PointsGeneralPolygons(const IntArray& nloops, const IntArray& nverts, const IntArray& verts, const ParamList& pList) {
    log.begin("PointsGeneralPolygons");
    log.ia(nloops);
    log.ia(nverts);
    log.ia(verts);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Basis(RtConstBasis ubasis, RtInt ustep, RtConstBasis vbasis, RtInt vstep) {
    log.begin("Basis");
    log.fa(reinterpret_cast<const RtFloat*>(ubasis), 16);
    log.i(ustep);
    log.fa(reinterpret_cast<const RtFloat*>(vbasis), 16);
    log.i(vstep);
    log.end();
  }
  virtual RtVoid Patch(RtConstToken type, const ParamList& pList) {
    log.begin("Patch");
    log.s(type);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid PatchMesh(RtConstToken type, RtInt nu, RtConstToken uwrap, RtInt nv, RtConstToken vwrap, const ParamList& pList) {
    log.begin("PatchMesh");
    log.s(type);
    log.i(nu);
    log.s(uwrap);
    log.i(nv);
    log.s(vwrap);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid NuPatch(RtInt nu, RtInt uorder, const FloatArray& uknot, RtFloat umin, RtFloat umax, RtInt nv, RtInt vorder, const FloatArray& vknot, RtFloat vmin, RtFloat vmax, const ParamList& pList) {
    log.begin("NuPatch");
    log.i(nu);
    log.i(uorder);
    log.fa(uknot.begin(), uknot.size());
    log.f(umin);
    log.f(umax);
    log.i(nv);
    log.i(vorder);
    log.fa(vknot.begin(), vknot.size());
    log.f(vmin);
    log.f(vmax);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid TrimCurve(const IntArray& ncurves, const IntArray& order, const FloatArray& knot, const FloatArray& min, const FloatArray& max, const IntArray& n, const FloatArray& u, const FloatArray& v, const FloatArray& w) {
    log.begin("TrimCurve");
    log.ia(ncurves);
    log.ia(order);
    log.fa(knot.begin(), knot.size());
    log.fa(min.begin(), min.size());
    log.fa(max.begin(), max.size());
    log.ia(n);
    log.fa(u.begin(), u.size());
    log.fa(v.begin(), v.size());
    log.fa(w.begin(), w.size());
    log.end();
  }
  virtual RtVoid SubdivisionMesh(RtConstToken scheme, const IntArray& nvertices, const IntArray& vertices, const TokenArray& tags, const IntArray& nargs, const IntArray& intargs, const FloatArray& floatargs, const ParamList& pList) {
    log.begin("SubdivisionMesh");
    log.s(scheme);
    log.ia(nvertices);
    log.ia(vertices);
    log.sa(tags);
    log.ia(nargs);
    log.ia(intargs);
    log.fa(floatargs.begin(), floatargs.size());
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Sphere(RtFloat radius, RtFloat zmin, RtFloat zmax, RtFloat thetamax, const ParamList& pList) {
    log.begin("Sphere");
    log.f(radius);
    log.f(zmin);
    log.f(zmax);
    log.f(thetamax);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Cone(RtFloat height, RtFloat radius, RtFloat thetamax, const ParamList& pList) {
    log.begin("Cone");
    log.f(height);
    log.f(radius);
    log.f(thetamax);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Cylinder(RtFloat radius, RtFloat zmin, RtFloat zmax, RtFloat thetamax, const ParamList& pList) {
    log.begin("Cylinder");
    log.f(radius);
    log.f(zmin);
    log.f(zmax);
    log.f(thetamax);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Hyperboloid(RtConstPoint point1, RtConstPoint point2, RtFloat thetamax, const ParamList& pList) {
    log.begin("Hyperboloid");
    log.fa(reinterpret_cast<const RtFloat*>(point1), 3);
    log.fa(reinterpret_cast<const RtFloat*>(point2), 3);
    log.f(thetamax);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Paraboloid(RtFloat rmax, RtFloat zmin, RtFloat zmax, RtFloat thetamax, const ParamList& pList) {
    log.begin("Paraboloid");
    log.f(rmax);
    log.f(zmin);
    log.f(zmax);
    log.f(thetamax);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Disk(RtFloat height, RtFloat radius, RtFloat thetamax, const ParamList& pList) {
    log.begin("Disk");
    log.f(height);
    log.f(radius);
    log.f(thetamax);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Torus(RtFloat majorrad, RtFloat minorrad, RtFloat phimin, RtFloat phimax, RtFloat thetamax, const ParamList& pList) {
    log.begin("Torus");
    log.f(majorrad);
    log.f(minorrad);
    log.f(phimin);
    log.f(phimax);
    log.f(thetamax);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Points(const ParamList& pList) {
    log.begin("Points");
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Curves(RtConstToken type, const IntArray& nvertices, RtConstToken wrap, const ParamList& pList) {
    log.begin("Curves");
    log.s(type);
    log.ia(nvertices);
    log.s(wrap);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Blobby(RtInt nleaf, const IntArray& code, const FloatArray& floats, const TokenArray& strings, const ParamList& pList) {
    log.begin("Blobby");
    log.i(nleaf);
    log.ia(code);
    log.fa(floats.begin(), floats.size());
    log.sa(strings);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid Procedural(RtPointer data, RtConstBound bound, RtProcSubdivFunc refineproc, RtProcFreeFunc freeproc) {
    log.begin("Procedural");
    log.procedural(data, bound, refineproc); log.end(); if(freeproc) freeproc(data);
  }
  virtual RtVoid Geometry(RtConstToken type, const ParamList& pList) {
    log.begin("Geometry");
    log.s(type);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid SolidBegin(RtConstToken type) {
    log.begin("SolidBegin");
    log.s(type);
    log.end();
  }
  virtual RtVoid SolidEnd() {
    log.begin("SolidEnd");
    log.end();
  }
  virtual RtVoid ObjectBegin(RtConstToken name) {
    log.begin("ObjectBegin");
    log.s(name);
    log.end();
  }
  virtual RtVoid ObjectEnd() {
    log.begin("ObjectEnd");
    log.end();
  }
  virtual RtVoid ObjectInstance(RtConstToken name) {
    log.begin("ObjectInstance");
    log.s(name);
    log.end();
  }
  virtual RtVoid MotionBegin(const FloatArray& times) {
    log.begin("MotionBegin");
    log.fa(times.begin(), times.size());
    log.end();
  }
  virtual RtVoid MotionEnd() {
    log.begin("MotionEnd");
    log.end();
  }
  virtual RtVoid MakeTexture(RtConstString imagefile, RtConstString texturefile, RtConstToken swrap, RtConstToken twrap, RtFilterFunc filterfunc, RtFloat swidth, RtFloat twidth, const ParamList& pList) {
    log.begin("MakeTexture");
    log.s(imagefile);
    log.s(texturefile);
    log.s(swrap);
    log.s(twrap);
    log.func(filterName(filterfunc));
    log.f(swidth);
    log.f(twidth);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid MakeLatLongEnvironment(RtConstString imagefile, RtConstString reflfile, RtFilterFunc filterfunc, RtFloat swidth, RtFloat twidth, const ParamList& pList) {
    log.begin("MakeLatLongEnvironment");
    log.s(imagefile);
    log.s(reflfile);
    log.func(filterName(filterfunc));
    log.f(swidth);
    log.f(twidth);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid MakeCubeFaceEnvironment(RtConstString px, RtConstString nx, RtConstString py, RtConstString ny, RtConstString pz, RtConstString nz, RtConstString reflfile, RtFloat fov, RtFilterFunc filterfunc, RtFloat swidth, RtFloat twidth, const ParamList& pList) {
    log.begin("MakeCubeFaceEnvironment");
    log.s(px);
    log.s(nx);
    log.s(py);
    log.s(ny);
    log.s(pz);
    log.s(nz);
    log.s(reflfile);
    log.f(fov);
    log.func(filterName(filterfunc));
    log.f(swidth);
    log.f(twidth);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid MakeShadow(RtConstString picfile, RtConstString shadowfile, const ParamList& pList) {
    log.begin("MakeShadow");
    log.s(picfile);
    log.s(shadowfile);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid MakeOcclusion(const StringArray& picfiles, RtConstString shadowfile, const ParamList& pList) {
    log.begin("MakeOcclusion");
    log.sa(picfiles);
    log.s(shadowfile);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid ErrorHandler(RtErrorFunc handler) {
    log.begin("ErrorHandler");
    log.func(errorName(handler));
    log.end();
  }
  virtual RtVoid ReadArchive(RtConstToken name, RtArchiveCallback callback, const ParamList& pList) {
    log.begin("ReadArchive");
    log.s(name);
    log.cb((void*)callback);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid ArchiveBegin(RtConstToken name, const ParamList& pList) {
    log.begin("ArchiveBegin");
    log.s(name);
    log.plist(pList);
    log.end();
  }
  virtual RtVoid ArchiveEnd() {
    log.begin("ArchiveEnd");
    log.end();
  }
  virtual RtVoid ArchiveRecord(RtConstToken type, const char* string) {
    log.begin("ArchiveRecord"); log.s(type); log.s(string); log.end(); }
};
static void dispatchCxx(Aqsis::Ri::Renderer& r, Aqsis::Ri::RendererServices& sv, Call& c) {
  const std::string& n = c.name; int k = 0; (void)k;
  if(n == "Declare") {
    r.Declare(c.str(0), c.str(1)); return; }
  if(n == "FrameBegin") {
    r.FrameBegin(c.i(0)); return; }
  if(n == "FrameEnd") {
    r.FrameEnd(); return; }
  if(n == "WorldBegin") {
    r.WorldBegin(); return; }
  if(n == "WorldEnd") {
    r.WorldEnd(); return; }
  if(n == "IfBegin") {
    r.IfBegin(c.str(0)); return; }
  if(n == "ElseIf") {
    r.ElseIf(c.str(0)); return; }
  if(n == "Else") {
    r.Else(); return; }
  if(n == "IfEnd") {
    r.IfEnd(); return; }
  if(n == "Format") {
    r.Format(c.i(0), c.i(1), c.f(2)); return; }
  if(n == "FrameAspectRatio") {
    r.FrameAspectRatio(c.f(0)); return; }
  if(n == "ScreenWindow") {
    r.ScreenWindow(c.f(0), c.f(1), c.f(2), c.f(3)); return; }
  if(n == "CropWindow") {
    r.CropWindow(c.f(0), c.f(1), c.f(2), c.f(3)); return; }
  if(n == "Projection") {
    r.Projection(c.str(0), c.plist()); return; }
  if(n == "Clipping") {
    r.Clipping(c.f(0), c.f(1)); return; }
  if(n == "ClippingPlane") {
    r.ClippingPlane(c.f(0), c.f(1), c.f(2), c.f(3), c.f(4), c.f(5)); return; }
  if(n == "DepthOfField") {
    r.DepthOfField(c.f(0), c.f(1), c.f(2)); return; }
  if(n == "Shutter") {
    r.Shutter(c.f(0), c.f(1)); return; }
  if(n == "PixelVariance") {
    r.PixelVariance(c.f(0)); return; }
  if(n == "PixelSamples") {
    r.PixelSamples(c.f(0), c.f(1)); return; }
  if(n == "PixelFilter") {
    r.PixelFilter(sv.getFilterFunc(c.str(0)), c.f(1), c.f(2)); return; }
  if(n == "Exposure") {
    r.Exposure(c.f(0), c.f(1)); return; }
  if(n == "Imager") {
    r.Imager(c.str(0), c.plist()); return; }
  if(n == "Quantize") {
    r.Quantize(c.str(0), c.i(1), c.i(2), c.i(3), c.f(4)); return; }
  if(n == "Display") {
    r.Display(c.str(0), c.str(1), c.str(2), c.plist()); return; }
  if(n == "Hider") {
    r.Hider(c.str(0), c.plist()); return; }
  if(n == "ColorSamples") {
    r.ColorSamples(c.fa(0), c.fa(1)); return; }
  if(n == "RelativeDetail") {
    r.RelativeDetail(c.f(0)); return; }
  if(n == "Option") {
    r.Option(c.str(0), c.plist()); return; }
  if(n == "AttributeBegin") {
    r.AttributeBegin(); return; }
  if(n == "AttributeEnd") {
    r.AttributeEnd(); return; }
  if(n == "Color") {
    r.Color(c.fa(0).begin()); return; }
  if(n == "Opacity") {
    r.Opacity(c.fa(0).begin()); return; }
  if(n == "TextureCoordinates") {
    r.TextureCoordinates(c.f(0), c.f(1), c.f(2), c.f(3), c.f(4), c.f(5), c.f(6), c.f(7)); return; }
  if(n == "LightSource") {
    r.LightSource(c.str(0), c.str(1), c.plist()); return; }
  if(n == "AreaLightSource") {
    r.AreaLightSource(c.str(0), c.str(1), c.plist()); return; }
  if(n == "Illuminate") {
    r.Illuminate(c.str(0), c.i(1)); return; }
  if(n == "Surface") {
    r.Surface(c.str(0), c.plist()); return; }
  if(n == "Displacement") {
    r.Displacement(c.str(0), c.plist()); return; }
  if(n == "Atmosphere") {
    r.Atmosphere(c.str(0), c.plist()); return; }
  if(n == "Interior") {
    r.Interior(c.str(0), c.plist()); return; }
  if(n == "Exterior") {
    r.Exterior(c.str(0), c.plist()); return; }
  if(n == "ShaderLayer") {
    r.ShaderLayer(c.str(0), c.str(1), c.str(2), c.plist()); return; }
  if(n == "ConnectShaderLayers") {
    r.ConnectShaderLayers(c.str(0), c.str(1), c.str(2), c.str(3), c.str(4)); return; }
  if(n == "ShadingRate") {
    r.ShadingRate(c.f(0)); return; }
  if(n == "ShadingInterpolation") {
    r.ShadingInterpolation(c.str(0)); return; }
  if(n == "Matte") {
    r.Matte(c.i(0)); return; }
  if(n == "Bound") {
    r.Bound(c.fa(0).begin()); return; }
  if(n == "Detail") {
    r.Detail(c.fa(0).begin()); return; }
  if(n == "DetailRange") {
    r.DetailRange(c.f(0), c.f(1), c.f(2), c.f(3)); return; }
  if(n == "GeometricApproximation") {
    r.GeometricApproximation(c.str(0), c.f(1)); return; }
  if(n == "Orientation") {
    r.Orientation(c.str(0)); return; }
  if(n == "ReverseOrientation") {
    r.ReverseOrientation(); return; }
  if(n == "Sides") {
    r.Sides(c.i(0)); return; }
  if(n == "Identity") {
    r.Identity(); return; }
  if(n == "Transform") {
    r.Transform(*reinterpret_cast<RtConstMatrix*>(c.fa(0).begin())); return; }
  if(n == "ConcatTransform") {
    r.ConcatTransform(*reinterpret_cast<RtConstMatrix*>(c.fa(0).begin())); return; }
  if(n == "Perspective") {
    r.Perspective(c.f(0)); return; }
  if(n == "Translate") {
    r.Translate(c.f(0), c.f(1), c.f(2)); return; }
  if(n == "Rotate") {
    r.Rotate(c.f(0), c.f(1), c.f(2), c.f(3)); return; }
  if(n == "Scale") {
    r.Scale(c.f(0), c.f(1), c.f(2)); return; }
  if(n == "Skew") {
    r.Skew(c.f(0), c.f(1), c.f(2), c.f(3), c.f(4), c.f(5), c.f(6)); return; }
  if(n == "CoordinateSystem") {
    r.CoordinateSystem(c.str(0)); return; }
  if(n == "CoordSysTransform") {
    r.CoordSysTransform(c.str(0)); return; }
  if(n == "TransformBegin") {
    r.TransformBegin(); return; }
  if(n == "TransformEnd") {
    r.TransformEnd(); return; }
  if(n == "Resource") {
    r.Resource(c.str(0), c.str(1), c.plist()); return; }
  if(n == "ResourceBegin") {
    r.ResourceBegin(); return; }
  if(n == "ResourceEnd") {
    r.ResourceEnd(); return; }
  if(n == "Attribute") {
    r.Attribute(c.str(0), c.plist()); return; }
  if(n == "Polygon") {
    r.Polygon(c.plist()); return; }
  if(n == "GeneralPolygon") {
    r.GeneralPolygon(c.ia(0), c.plist()); return; }
  if(n == "PointsPolygons") {
    r.PointsPolygons(c.ia(0), c.ia(1), c.plist()); return; }
  if(n == "PointsGeneralPolygons") {
    r.PointsGeneralPolygons(c.ia(0), c.ia(1), c.ia(2), c.plist()); return; }
  if(n == "Basis") {
    r.Basis(*reinterpret_cast<RtConstMatrix*>(c.fa(0).begin()), c.i(1), *reinterpret_cast<RtConstMatrix*>(c.fa(2).begin()), c.i(3)); return; }
  if(n == "Patch") {
    r.Patch(c.str(0), c.plist()); return; }
  if(n == "PatchMesh") {
    r.PatchMesh(c.str(0), c.i(1), c.str(2), c.i(3), c.str(4), c.plist()); return; }
  if(n == "NuPatch") {
    r.NuPatch(c.i(0), c.i(1), c.fa(2), c.f(3), c.f(4), c.i(5), c.i(6), c.fa(7), c.f(8), c.f(9), c.plist()); return; }
  if(n == "TrimCurve") {
    r.TrimCurve(c.ia(0), c.ia(1), c.fa(2), c.fa(3), c.fa(4), c.ia(5), c.fa(6), c.fa(7), c.fa(8)); return; }
  if(n == "SubdivisionMesh") {
    r.SubdivisionMesh(c.str(0), c.ia(1), c.ia(2), c.sa(3), c.ia(4), c.ia(5), c.fa(6), c.plist()); return; }
  if(n == "Sphere") {
    r.Sphere(c.f(0), c.f(1), c.f(2), c.f(3), c.plist()); return; }
  if(n == "Cone") {
    r.Cone(c.f(0), c.f(1), c.f(2), c.plist()); return; }
  if(n == "Cylinder") {
    r.Cylinder(c.f(0), c.f(1), c.f(2), c.f(3), c.plist()); return; }
  if(n == "Hyperboloid") {
    r.Hyperboloid(c.fa(0).begin(), c.fa(1).begin(), c.f(2), c.plist()); return; }
  if(n == "Paraboloid") {
    r.Paraboloid(c.f(0), c.f(1), c.f(2), c.f(3), c.plist()); return; }
  if(n == "Disk") {
    r.Disk(c.f(0), c.f(1), c.f(2), c.plist()); return; }
  if(n == "Torus") {
    r.Torus(c.f(0), c.f(1), c.f(2), c.f(3), c.f(4), c.plist()); return; }
  if(n == "Points") {
    r.Points(c.plist()); return; }
  if(n == "Curves") {
    r.Curves(c.str(0), c.ia(1), c.str(2), c.plist()); return; }
  if(n == "Blobby") {
    r.Blobby(c.i(0), c.ia(1), c.fa(2), c.sa(3), c.plist()); return; }
  if(n == "Procedural") {
    RtProcSubdivFunc fn = sv.getProcSubdivFunc(c.str(0));
    void* data = c.procData(1); r.Procedural(data, c.fa(2).begin(), fn, &freeCounted); return; }
  if(n == "Geometry") {
    r.Geometry(c.str(0), c.plist()); return; }
  if(n == "SolidBegin") {
    r.SolidBegin(c.str(0)); return; }
  if(n == "SolidEnd") {
    r.SolidEnd(); return; }
  if(n == "ObjectBegin") {
    r.ObjectBegin(c.str(0)); return; }
  if(n == "ObjectEnd") {
    r.ObjectEnd(); return; }
  if(n == "ObjectInstance") {
    r.ObjectInstance(c.str(0)); return; }
  if(n == "MotionBegin") {
    r.MotionBegin(c.fa(0)); return; }
  if(n == "MotionEnd") {
    r.MotionEnd(); return; }
  if(n == "MakeTexture") {
    r.MakeTexture(c.str(0), c.str(1), c.str(2), c.str(3), sv.getFilterFunc(c.str(4)), c.f(5), c.f(6), c.plist()); return; }
  if(n == "MakeLatLongEnvironment") {
    r.MakeLatLongEnvironment(c.str(0), c.str(1), sv.getFilterFunc(c.str(2)), c.f(3), c.f(4), c.plist()); return; }
  if(n == "MakeCubeFaceEnvironment") {
    r.MakeCubeFaceEnvironment(c.str(0), c.str(1), c.str(2), c.str(3), c.str(4), c.str(5), c.str(6), c.f(7), sv.getFilterFunc(c.str(8)), c.f(9), c.f(10), c.plist()); return; }
  if(n == "MakeShadow") {
    r.MakeShadow(c.str(0), c.str(1), c.plist()); return; }
  if(n == "MakeOcclusion") {
    r.MakeOcclusion(c.sa(0), c.str(1), c.plist()); return; }
  if(n == "ErrorHandler") {
    r.ErrorHandler(sv.getErrorFunc(c.str(0))); return; }
  if(n == "ReadArchive") {
    r.ReadArchive(c.str(0), 0, c.plist()); return; }
  if(n == "ArchiveBegin") {
    r.ArchiveBegin(c.str(0), c.plist()); return; }
  if(n == "ArchiveEnd") {
    r.ArchiveEnd(); return; }
  if(n == "ArchiveRecord") { r.ArchiveRecord(c.str(0), c.str(1)); return; }
  fatal("unknown request " + n);
}
#ifdef WITH_C_API
static void dispatchC(Call& c, Handles& h, bool varargs) {
  const std::string& n = c.name;
  if(n == "Declare") {
    RiDeclare(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1))); return; }
  if(n == "FrameBegin") {
    RiFrameBegin(c.i(0)); return; }
  if(n == "FrameEnd") {
    RiFrameEnd(); return; }
  if(n == "WorldBegin") {
    RiWorldBegin(); return; }
  if(n == "WorldEnd") {
    RiWorldEnd(); return; }
  if(n == "IfBegin") {
    RiIfBegin(const_cast<char*>(c.str(0))); return; }
  if(n == "ElseIf") {
    RiElseIf(const_cast<char*>(c.str(0))); return; }
  if(n == "Else") {
    RiElse(); return; }
  if(n == "IfEnd") {
    RiIfEnd(); return; }
  if(n == "Format") {
    RiFormat(c.i(0), c.i(1), varargs ? c.f(2) : c.f(2)); return; }
  if(n == "FrameAspectRatio") {
    RiFrameAspectRatio(varargs ? c.f(0) : c.f(0)); return; }
  if(n == "ScreenWindow") {
    RiScreenWindow(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3)); return; }
  if(n == "CropWindow") {
    RiCropWindow(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3)); return; }
  if(n == "Projection") {
    int np = c.np();
    if(!varargs || np > 4) { RiProjectionV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiProjection(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: RiProjection(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiProjection(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiProjection(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiProjection(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Clipping") {
    RiClipping(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1)); return; }
  if(n == "ClippingPlane") {
    RiClippingPlane(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), varargs ? c.f(5) : c.f(5)); return; }
  if(n == "DepthOfField") {
    RiDepthOfField(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2)); return; }
  if(n == "Shutter") {
    RiShutter(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1)); return; }
  if(n == "PixelVariance") {
    RiPixelVariance(varargs ? c.f(0) : c.f(0)); return; }
  if(n == "PixelSamples") {
    RiPixelSamples(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1)); return; }
  if(n == "PixelFilter") {
    RiPixelFilter(filterByName(c.str(0)), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2)); return; }
  if(n == "Exposure") {
    RiExposure(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1)); return; }
  if(n == "Imager") {
    int np = c.np();
    if(!varargs || np > 4) { RiImagerV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiImager(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: RiImager(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiImager(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiImager(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiImager(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Quantize") {
    RiQuantize(const_cast<char*>(c.str(0)), c.i(1), c.i(2), c.i(3), varargs ? c.f(4) : c.f(4)); return; }
  if(n == "Display") {
    int np = c.np();
    if(!varargs || np > 4) { RiDisplayV(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiDisplay(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), RI_NULL); return;
      case 1: RiDisplay(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiDisplay(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiDisplay(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiDisplay(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Hider") {
    int np = c.np();
    if(!varargs || np > 4) { RiHiderV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiHider(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: RiHider(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiHider(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiHider(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiHider(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "ColorSamples") {
    RiColorSamples((RtInt)(size(c.fa(0))/3), const_cast<RtFloat*>(c.fa(0).begin()), const_cast<RtFloat*>(c.fa(1).begin())); return; }
  if(n == "RelativeDetail") {
    RiRelativeDetail(varargs ? c.f(0) : c.f(0)); return; }
  if(n == "Option") {
    int np = c.np();
    if(!varargs || np > 4) { RiOptionV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiOption(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: RiOption(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiOption(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiOption(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiOption(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "AttributeBegin") {
    RiAttributeBegin(); return; }
  if(n == "AttributeEnd") {
    RiAttributeEnd(); return; }
  if(n == "Color") {
    RiColor(const_cast<RtFloat*>(c.fa(0).begin())); return; }
  if(n == "Opacity") {
    RiOpacity(const_cast<RtFloat*>(c.fa(0).begin())); return; }
  if(n == "TextureCoordinates") {
    RiTextureCoordinates(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), varargs ? c.f(5) : c.f(5), varargs ? c.f(6) : c.f(6), varargs ? c.f(7) : c.f(7)); return; }
  if(n == "LightSource") {
    int np = c.np();
    if(!varargs || np > 4) { h.light[c.str(1)] = RiLightSourceV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: h.light[c.str(1)] = RiLightSource(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: h.light[c.str(1)] = RiLightSource(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: h.light[c.str(1)] = RiLightSource(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: h.light[c.str(1)] = RiLightSource(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: h.light[c.str(1)] = RiLightSource(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "AreaLightSource") {
    int np = c.np();
    if(!varargs || np > 4) { h.light[c.str(1)] = RiAreaLightSourceV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: h.light[c.str(1)] = RiAreaLightSource(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: h.light[c.str(1)] = RiAreaLightSource(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: h.light[c.str(1)] = RiAreaLightSource(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: h.light[c.str(1)] = RiAreaLightSource(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: h.light[c.str(1)] = RiAreaLightSource(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Illuminate") {
    RiIlluminate(h.light[c.str(0)], c.i(1)); return; }
  if(n == "Surface") {
    int np = c.np();
    if(!varargs || np > 4) { RiSurfaceV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiSurface(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: RiSurface(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiSurface(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiSurface(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiSurface(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Displacement") {
    int np = c.np();
    if(!varargs || np > 4) { RiDisplacementV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiDisplacement(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: RiDisplacement(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiDisplacement(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiDisplacement(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiDisplacement(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Atmosphere") {
    int np = c.np();
    if(!varargs || np > 4) { RiAtmosphereV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiAtmosphere(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: RiAtmosphere(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiAtmosphere(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiAtmosphere(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiAtmosphere(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Interior") {
    int np = c.np();
    if(!varargs || np > 4) { RiInteriorV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiInterior(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: RiInterior(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiInterior(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiInterior(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiInterior(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Exterior") {
    int np = c.np();
    if(!varargs || np > 4) { RiExteriorV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiExterior(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: RiExterior(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiExterior(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiExterior(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiExterior(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "ShaderLayer") {
    int np = c.np();
    if(!varargs || np > 4) { RiShaderLayerV(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiShaderLayer(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), RI_NULL); return;
      case 1: RiShaderLayer(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiShaderLayer(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiShaderLayer(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiShaderLayer(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "ConnectShaderLayers") {
    RiConnectShaderLayers(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), const_cast<char*>(c.str(3)), const_cast<char*>(c.str(4))); return; }
  if(n == "ShadingRate") {
    RiShadingRate(varargs ? c.f(0) : c.f(0)); return; }
  if(n == "ShadingInterpolation") {
    RiShadingInterpolation(const_cast<char*>(c.str(0))); return; }
  if(n == "Matte") {
    RiMatte(c.i(0)); return; }
  if(n == "Bound") {
    RiBound(const_cast<RtFloat*>(c.fa(0).begin())); return; }
  if(n == "Detail") {
    RiDetail(const_cast<RtFloat*>(c.fa(0).begin())); return; }
  if(n == "DetailRange") {
    RiDetailRange(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3)); return; }
  if(n == "GeometricApproximation") {
    RiGeometricApproximation(const_cast<char*>(c.str(0)), varargs ? c.f(1) : c.f(1)); return; }
  if(n == "Orientation") {
    RiOrientation(const_cast<char*>(c.str(0))); return; }
  if(n == "ReverseOrientation") {
    RiReverseOrientation(); return; }
  if(n == "Sides") {
    RiSides(c.i(0)); return; }
  if(n == "Identity") {
    RiIdentity(); return; }
  if(n == "Transform") {
    RiTransform(*reinterpret_cast<RtMatrix*>(const_cast<RtFloat*>(c.fa(0).begin()))); return; }
  if(n == "ConcatTransform") {
    RiConcatTransform(*reinterpret_cast<RtMatrix*>(const_cast<RtFloat*>(c.fa(0).begin()))); return; }
  if(n == "Perspective") {
    RiPerspective(varargs ? c.f(0) : c.f(0)); return; }
  if(n == "Translate") {
    RiTranslate(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2)); return; }
  if(n == "Rotate") {
    RiRotate(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3)); return; }
  if(n == "Scale") {
    RiScale(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2)); return; }
  if(n == "Skew") {
    RiSkew(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), varargs ? c.f(5) : c.f(5), varargs ? c.f(6) : c.f(6)); return; }
  if(n == "CoordinateSystem") {
    RiCoordinateSystem(const_cast<char*>(c.str(0))); return; }
  if(n == "CoordSysTransform") {
    RiCoordSysTransform(const_cast<char*>(c.str(0))); return; }
  if(n == "TransformBegin") {
    RiTransformBegin(); return; }
  if(n == "TransformEnd") {
    RiTransformEnd(); return; }
  if(n == "Resource") {
    int np = c.np();
    if(!varargs || np > 4) { RiResourceV(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiResource(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), RI_NULL); return;
      case 1: RiResource(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiResource(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiResource(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiResource(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "ResourceBegin") {
    RiResourceBegin(); return; }
  if(n == "ResourceEnd") {
    RiResourceEnd(); return; }
  if(n == "Attribute") {
    int np = c.np();
    if(!varargs || np > 4) { RiAttributeV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiAttribute(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: RiAttribute(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiAttribute(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiAttribute(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiAttribute(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Polygon") {
    int np = c.np();
    if(!varargs || np > 4) { RiPolygonV((RtInt)(countP(c.plist())), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiPolygon((RtInt)(countP(c.plist())), RI_NULL); return;
      case 1: RiPolygon((RtInt)(countP(c.plist())), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiPolygon((RtInt)(countP(c.plist())), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiPolygon((RtInt)(countP(c.plist())), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiPolygon((RtInt)(countP(c.plist())), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "GeneralPolygon") {
    int np = c.np();
    if(!varargs || np > 4) { RiGeneralPolygonV((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiGeneralPolygon((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), RI_NULL); return;
      case 1: RiGeneralPolygon((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiGeneralPolygon((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiGeneralPolygon((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiGeneralPolygon((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "PointsPolygons") {
    int np = c.np();
    if(!varargs || np > 4) { RiPointsPolygonsV((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), const_cast<RtInt*>(c.ia(1).begin()), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiPointsPolygons((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), const_cast<RtInt*>(c.ia(1).begin()), RI_NULL); return;
      case 1: RiPointsPolygons((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), const_cast<RtInt*>(c.ia(1).begin()), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiPointsPolygons((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), const_cast<RtInt*>(c.ia(1).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiPointsPolygons((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), const_cast<RtInt*>(c.ia(1).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiPointsPolygons((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), const_cast<RtInt*>(c.ia(1).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "PointsGeneralPolygons") {
    int np = c.np();
    if(!varargs || np > 4) { RiPointsGeneralPolygonsV((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), const_cast<RtInt*>(c.ia(1).begin()), const_cast<RtInt*>(c.ia(2).begin()), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiPointsGeneralPolygons((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), const_cast<RtInt*>(c.ia(1).begin()), const_cast<RtInt*>(c.ia(2).begin()), RI_NULL); return;
      case 1: RiPointsGeneralPolygons((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), const_cast<RtInt*>(c.ia(1).begin()), const_cast<RtInt*>(c.ia(2).begin()), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiPointsGeneralPolygons((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), const_cast<RtInt*>(c.ia(1).begin()), const_cast<RtInt*>(c.ia(2).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiPointsGeneralPolygons((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), const_cast<RtInt*>(c.ia(1).begin()), const_cast<RtInt*>(c.ia(2).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiPointsGeneralPolygons((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), const_cast<RtInt*>(c.ia(1).begin()), const_cast<RtInt*>(c.ia(2).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Basis") {
    RiBasis(*reinterpret_cast<RtMatrix*>(const_cast<RtFloat*>(c.fa(0).begin())), c.i(1), *reinterpret_cast<RtMatrix*>(const_cast<RtFloat*>(c.fa(2).begin())), c.i(3)); return; }
  if(n == "Patch") {
    int np = c.np();
    if(!varargs || np > 4) { RiPatchV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiPatch(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: RiPatch(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiPatch(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiPatch(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiPatch(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "PatchMesh") {
    int np = c.np();
    if(!varargs || np > 4) { RiPatchMeshV(const_cast<char*>(c.str(0)), c.i(1), const_cast<char*>(c.str(2)), c.i(3), const_cast<char*>(c.str(4)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiPatchMesh(const_cast<char*>(c.str(0)), c.i(1), const_cast<char*>(c.str(2)), c.i(3), const_cast<char*>(c.str(4)), RI_NULL); return;
      case 1: RiPatchMesh(const_cast<char*>(c.str(0)), c.i(1), const_cast<char*>(c.str(2)), c.i(3), const_cast<char*>(c.str(4)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiPatchMesh(const_cast<char*>(c.str(0)), c.i(1), const_cast<char*>(c.str(2)), c.i(3), const_cast<char*>(c.str(4)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiPatchMesh(const_cast<char*>(c.str(0)), c.i(1), const_cast<char*>(c.str(2)), c.i(3), const_cast<char*>(c.str(4)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiPatchMesh(const_cast<char*>(c.str(0)), c.i(1), const_cast<char*>(c.str(2)), c.i(3), const_cast<char*>(c.str(4)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "NuPatch") {
    int np = c.np();
    if(!varargs || np > 4) { RiNuPatchV(c.i(0), c.i(1), const_cast<RtFloat*>(c.fa(2).begin()), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.i(5), c.i(6), const_cast<RtFloat*>(c.fa(7).begin()), varargs ? c.f(8) : c.f(8), varargs ? c.f(9) : c.f(9), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiNuPatch(c.i(0), c.i(1), const_cast<RtFloat*>(c.fa(2).begin()), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.i(5), c.i(6), const_cast<RtFloat*>(c.fa(7).begin()), varargs ? c.f(8) : c.f(8), varargs ? c.f(9) : c.f(9), RI_NULL); return;
      case 1: RiNuPatch(c.i(0), c.i(1), const_cast<RtFloat*>(c.fa(2).begin()), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.i(5), c.i(6), const_cast<RtFloat*>(c.fa(7).begin()), varargs ? c.f(8) : c.f(8), varargs ? c.f(9) : c.f(9), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiNuPatch(c.i(0), c.i(1), const_cast<RtFloat*>(c.fa(2).begin()), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.i(5), c.i(6), const_cast<RtFloat*>(c.fa(7).begin()), varargs ? c.f(8) : c.f(8), varargs ? c.f(9) : c.f(9), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiNuPatch(c.i(0), c.i(1), const_cast<RtFloat*>(c.fa(2).begin()), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.i(5), c.i(6), const_cast<RtFloat*>(c.fa(7).begin()), varargs ? c.f(8) : c.f(8), varargs ? c.f(9) : c.f(9), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiNuPatch(c.i(0), c.i(1), const_cast<RtFloat*>(c.fa(2).begin()), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.i(5), c.i(6), const_cast<RtFloat*>(c.fa(7).begin()), varargs ? c.f(8) : c.f(8), varargs ? c.f(9) : c.f(9), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "TrimCurve") {
    RiTrimCurve((RtInt)(size(c.ia(0))), const_cast<RtInt*>(c.ia(0).begin()), const_cast<RtInt*>(c.ia(1).begin()), const_cast<RtFloat*>(c.fa(2).begin()), const_cast<RtFloat*>(c.fa(3).begin()), const_cast<RtFloat*>(c.fa(4).begin()), const_cast<RtInt*>(c.ia(5).begin()), const_cast<RtFloat*>(c.fa(6).begin()), const_cast<RtFloat*>(c.fa(7).begin()), const_cast<RtFloat*>(c.fa(8).begin())); return; }
  if(n == "SubdivisionMesh") {
    int np = c.np();
    if(!varargs || np > 4) { RiSubdivisionMeshV(const_cast<char*>(c.str(0)), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), const_cast<RtInt*>(c.ia(2).begin()), (RtInt)(size(c.sa(3))), const_cast<char**>(c.sa(3).begin()), const_cast<RtInt*>(c.ia(4).begin()), const_cast<RtInt*>(c.ia(5).begin()), const_cast<RtFloat*>(c.fa(6).begin()), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiSubdivisionMesh(const_cast<char*>(c.str(0)), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), const_cast<RtInt*>(c.ia(2).begin()), (RtInt)(size(c.sa(3))), const_cast<char**>(c.sa(3).begin()), const_cast<RtInt*>(c.ia(4).begin()), const_cast<RtInt*>(c.ia(5).begin()), const_cast<RtFloat*>(c.fa(6).begin()), RI_NULL); return;
      case 1: RiSubdivisionMesh(const_cast<char*>(c.str(0)), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), const_cast<RtInt*>(c.ia(2).begin()), (RtInt)(size(c.sa(3))), const_cast<char**>(c.sa(3).begin()), const_cast<RtInt*>(c.ia(4).begin()), const_cast<RtInt*>(c.ia(5).begin()), const_cast<RtFloat*>(c.fa(6).begin()), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiSubdivisionMesh(const_cast<char*>(c.str(0)), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), const_cast<RtInt*>(c.ia(2).begin()), (RtInt)(size(c.sa(3))), const_cast<char**>(c.sa(3).begin()), const_cast<RtInt*>(c.ia(4).begin()), const_cast<RtInt*>(c.ia(5).begin()), const_cast<RtFloat*>(c.fa(6).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiSubdivisionMesh(const_cast<char*>(c.str(0)), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), const_cast<RtInt*>(c.ia(2).begin()), (RtInt)(size(c.sa(3))), const_cast<char**>(c.sa(3).begin()), const_cast<RtInt*>(c.ia(4).begin()), const_cast<RtInt*>(c.ia(5).begin()), const_cast<RtFloat*>(c.fa(6).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiSubdivisionMesh(const_cast<char*>(c.str(0)), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), const_cast<RtInt*>(c.ia(2).begin()), (RtInt)(size(c.sa(3))), const_cast<char**>(c.sa(3).begin()), const_cast<RtInt*>(c.ia(4).begin()), const_cast<RtInt*>(c.ia(5).begin()), const_cast<RtFloat*>(c.fa(6).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Sphere") {
    int np = c.np();
    if(!varargs || np > 4) { RiSphereV(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiSphere(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), RI_NULL); return;
      case 1: RiSphere(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiSphere(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiSphere(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiSphere(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Cone") {
    int np = c.np();
    if(!varargs || np > 4) { RiConeV(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiCone(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), RI_NULL); return;
      case 1: RiCone(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiCone(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiCone(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiCone(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Cylinder") {
    int np = c.np();
    if(!varargs || np > 4) { RiCylinderV(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiCylinder(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), RI_NULL); return;
      case 1: RiCylinder(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiCylinder(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiCylinder(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiCylinder(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Hyperboloid") {
    int np = c.np();
    if(!varargs || np > 4) { RiHyperboloidV(const_cast<RtFloat*>(c.fa(0).begin()), const_cast<RtFloat*>(c.fa(1).begin()), varargs ? c.f(2) : c.f(2), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiHyperboloid(const_cast<RtFloat*>(c.fa(0).begin()), const_cast<RtFloat*>(c.fa(1).begin()), varargs ? c.f(2) : c.f(2), RI_NULL); return;
      case 1: RiHyperboloid(const_cast<RtFloat*>(c.fa(0).begin()), const_cast<RtFloat*>(c.fa(1).begin()), varargs ? c.f(2) : c.f(2), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiHyperboloid(const_cast<RtFloat*>(c.fa(0).begin()), const_cast<RtFloat*>(c.fa(1).begin()), varargs ? c.f(2) : c.f(2), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiHyperboloid(const_cast<RtFloat*>(c.fa(0).begin()), const_cast<RtFloat*>(c.fa(1).begin()), varargs ? c.f(2) : c.f(2), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiHyperboloid(const_cast<RtFloat*>(c.fa(0).begin()), const_cast<RtFloat*>(c.fa(1).begin()), varargs ? c.f(2) : c.f(2), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Paraboloid") {
    int np = c.np();
    if(!varargs || np > 4) { RiParaboloidV(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiParaboloid(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), RI_NULL); return;
      case 1: RiParaboloid(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiParaboloid(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiParaboloid(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiParaboloid(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Disk") {
    int np = c.np();
    if(!varargs || np > 4) { RiDiskV(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiDisk(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), RI_NULL); return;
      case 1: RiDisk(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiDisk(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiDisk(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiDisk(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Torus") {
    int np = c.np();
    if(!varargs || np > 4) { RiTorusV(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiTorus(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), RI_NULL); return;
      case 1: RiTorus(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiTorus(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiTorus(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiTorus(varargs ? c.f(0) : c.f(0), varargs ? c.f(1) : c.f(1), varargs ? c.f(2) : c.f(2), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Points") {
    int np = c.np();
    if(!varargs || np > 4) { RiPointsV((RtInt)(countP(c.plist())), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiPoints((RtInt)(countP(c.plist())), RI_NULL); return;
      case 1: RiPoints((RtInt)(countP(c.plist())), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiPoints((RtInt)(countP(c.plist())), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiPoints((RtInt)(countP(c.plist())), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiPoints((RtInt)(countP(c.plist())), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Curves") {
    int np = c.np();
    if(!varargs || np > 4) { RiCurvesV(const_cast<char*>(c.str(0)), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), const_cast<char*>(c.str(2)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiCurves(const_cast<char*>(c.str(0)), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), const_cast<char*>(c.str(2)), RI_NULL); return;
      case 1: RiCurves(const_cast<char*>(c.str(0)), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), const_cast<char*>(c.str(2)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiCurves(const_cast<char*>(c.str(0)), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), const_cast<char*>(c.str(2)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiCurves(const_cast<char*>(c.str(0)), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), const_cast<char*>(c.str(2)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiCurves(const_cast<char*>(c.str(0)), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), const_cast<char*>(c.str(2)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Blobby") {
    int np = c.np();
    if(!varargs || np > 4) { RiBlobbyV(c.i(0), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), (RtInt)(size(c.fa(2))), const_cast<RtFloat*>(c.fa(2).begin()), (RtInt)(size(c.sa(3))), const_cast<char**>(c.sa(3).begin()), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiBlobby(c.i(0), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), (RtInt)(size(c.fa(2))), const_cast<RtFloat*>(c.fa(2).begin()), (RtInt)(size(c.sa(3))), const_cast<char**>(c.sa(3).begin()), RI_NULL); return;
      case 1: RiBlobby(c.i(0), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), (RtInt)(size(c.fa(2))), const_cast<RtFloat*>(c.fa(2).begin()), (RtInt)(size(c.sa(3))), const_cast<char**>(c.sa(3).begin()), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiBlobby(c.i(0), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), (RtInt)(size(c.fa(2))), const_cast<RtFloat*>(c.fa(2).begin()), (RtInt)(size(c.sa(3))), const_cast<char**>(c.sa(3).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiBlobby(c.i(0), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), (RtInt)(size(c.fa(2))), const_cast<RtFloat*>(c.fa(2).begin()), (RtInt)(size(c.sa(3))), const_cast<char**>(c.sa(3).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiBlobby(c.i(0), (RtInt)(size(c.ia(1))), const_cast<RtInt*>(c.ia(1).begin()), (RtInt)(size(c.fa(2))), const_cast<RtFloat*>(c.fa(2).begin()), (RtInt)(size(c.sa(3))), const_cast<char**>(c.sa(3).begin()), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "Procedural") {
    RiProcedural(c.procData(1), const_cast<RtFloat*>(c.fa(2).begin()), subdivByName(c.str(0)), &freeCounted); return; }
  if(n == "Geometry") {
    int np = c.np();
    if(!varargs || np > 4) { RiGeometryV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiGeometry(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: RiGeometry(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiGeometry(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiGeometry(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiGeometry(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "SolidBegin") {
    RiSolidBegin(const_cast<char*>(c.str(0))); return; }
  if(n == "SolidEnd") {
    RiSolidEnd(); return; }
  if(n == "ObjectBegin") {
    h.obj[c.str(0)] = RiObjectBegin(); return; }
  if(n == "ObjectEnd") {
    RiObjectEnd(); return; }
  if(n == "ObjectInstance") {
    RiObjectInstance(h.obj[c.str(0)]); return; }
  if(n == "MotionBegin") {
    RiMotionBeginV((RtInt)(size(c.fa(0))), const_cast<RtFloat*>(c.fa(0).begin())); return; }
  if(n == "MotionEnd") {
    RiMotionEnd(); return; }
  if(n == "MakeTexture") {
    int np = c.np();
    if(!varargs || np > 4) { RiMakeTextureV(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), const_cast<char*>(c.str(3)), filterByName(c.str(4)), varargs ? c.f(5) : c.f(5), varargs ? c.f(6) : c.f(6), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiMakeTexture(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), const_cast<char*>(c.str(3)), filterByName(c.str(4)), varargs ? c.f(5) : c.f(5), varargs ? c.f(6) : c.f(6), RI_NULL); return;
      case 1: RiMakeTexture(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), const_cast<char*>(c.str(3)), filterByName(c.str(4)), varargs ? c.f(5) : c.f(5), varargs ? c.f(6) : c.f(6), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiMakeTexture(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), const_cast<char*>(c.str(3)), filterByName(c.str(4)), varargs ? c.f(5) : c.f(5), varargs ? c.f(6) : c.f(6), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiMakeTexture(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), const_cast<char*>(c.str(3)), filterByName(c.str(4)), varargs ? c.f(5) : c.f(5), varargs ? c.f(6) : c.f(6), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiMakeTexture(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), const_cast<char*>(c.str(3)), filterByName(c.str(4)), varargs ? c.f(5) : c.f(5), varargs ? c.f(6) : c.f(6), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "MakeLatLongEnvironment") {
    int np = c.np();
    if(!varargs || np > 4) { RiMakeLatLongEnvironmentV(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), filterByName(c.str(2)), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiMakeLatLongEnvironment(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), filterByName(c.str(2)), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), RI_NULL); return;
      case 1: RiMakeLatLongEnvironment(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), filterByName(c.str(2)), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiMakeLatLongEnvironment(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), filterByName(c.str(2)), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiMakeLatLongEnvironment(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), filterByName(c.str(2)), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiMakeLatLongEnvironment(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), filterByName(c.str(2)), varargs ? c.f(3) : c.f(3), varargs ? c.f(4) : c.f(4), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "MakeCubeFaceEnvironment") {
    int np = c.np();
    if(!varargs || np > 4) { RiMakeCubeFaceEnvironmentV(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), const_cast<char*>(c.str(3)), const_cast<char*>(c.str(4)), const_cast<char*>(c.str(5)), const_cast<char*>(c.str(6)), varargs ? c.f(7) : c.f(7), filterByName(c.str(8)), varargs ? c.f(9) : c.f(9), varargs ? c.f(10) : c.f(10), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiMakeCubeFaceEnvironment(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), const_cast<char*>(c.str(3)), const_cast<char*>(c.str(4)), const_cast<char*>(c.str(5)), const_cast<char*>(c.str(6)), varargs ? c.f(7) : c.f(7), filterByName(c.str(8)), varargs ? c.f(9) : c.f(9), varargs ? c.f(10) : c.f(10), RI_NULL); return;
      case 1: RiMakeCubeFaceEnvironment(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), const_cast<char*>(c.str(3)), const_cast<char*>(c.str(4)), const_cast<char*>(c.str(5)), const_cast<char*>(c.str(6)), varargs ? c.f(7) : c.f(7), filterByName(c.str(8)), varargs ? c.f(9) : c.f(9), varargs ? c.f(10) : c.f(10), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiMakeCubeFaceEnvironment(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), const_cast<char*>(c.str(3)), const_cast<char*>(c.str(4)), const_cast<char*>(c.str(5)), const_cast<char*>(c.str(6)), varargs ? c.f(7) : c.f(7), filterByName(c.str(8)), varargs ? c.f(9) : c.f(9), varargs ? c.f(10) : c.f(10), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiMakeCubeFaceEnvironment(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), const_cast<char*>(c.str(3)), const_cast<char*>(c.str(4)), const_cast<char*>(c.str(5)), const_cast<char*>(c.str(6)), varargs ? c.f(7) : c.f(7), filterByName(c.str(8)), varargs ? c.f(9) : c.f(9), varargs ? c.f(10) : c.f(10), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiMakeCubeFaceEnvironment(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), const_cast<char*>(c.str(2)), const_cast<char*>(c.str(3)), const_cast<char*>(c.str(4)), const_cast<char*>(c.str(5)), const_cast<char*>(c.str(6)), varargs ? c.f(7) : c.f(7), filterByName(c.str(8)), varargs ? c.f(9) : c.f(9), varargs ? c.f(10) : c.f(10), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "MakeShadow") {
    int np = c.np();
    if(!varargs || np > 4) { RiMakeShadowV(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiMakeShadow(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), RI_NULL); return;
      case 1: RiMakeShadow(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiMakeShadow(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiMakeShadow(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiMakeShadow(const_cast<char*>(c.str(0)), const_cast<char*>(c.str(1)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "MakeOcclusion") {
    int np = c.np();
    if(!varargs || np > 4) { RiMakeOcclusionV((RtInt)(size(c.sa(0))), const_cast<char**>(c.sa(0).begin()), const_cast<char*>(c.str(1)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiMakeOcclusion((RtInt)(size(c.sa(0))), const_cast<char**>(c.sa(0).begin()), const_cast<char*>(c.str(1)), RI_NULL); return;
      case 1: RiMakeOcclusion((RtInt)(size(c.sa(0))), const_cast<char**>(c.sa(0).begin()), const_cast<char*>(c.str(1)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiMakeOcclusion((RtInt)(size(c.sa(0))), const_cast<char**>(c.sa(0).begin()), const_cast<char*>(c.str(1)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiMakeOcclusion((RtInt)(size(c.sa(0))), const_cast<char**>(c.sa(0).begin()), const_cast<char*>(c.str(1)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiMakeOcclusion((RtInt)(size(c.sa(0))), const_cast<char**>(c.sa(0).begin()), const_cast<char*>(c.str(1)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "ErrorHandler") {
    RiErrorHandler(errorByName(c.str(0))); return; }
  if(n == "ReadArchive") {
    int np = c.np();
    if(!varargs || np > 4) { RiReadArchiveV(const_cast<char*>(c.str(0)), h.cb, np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiReadArchive(const_cast<char*>(c.str(0)), h.cb, RI_NULL); return;
      case 1: RiReadArchive(const_cast<char*>(c.str(0)), h.cb, c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiReadArchive(const_cast<char*>(c.str(0)), h.cb, c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiReadArchive(const_cast<char*>(c.str(0)), h.cb, c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiReadArchive(const_cast<char*>(c.str(0)), h.cb, c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "ArchiveBegin") {
    int np = c.np();
    if(!varargs || np > 4) { RiArchiveBeginV(const_cast<char*>(c.str(0)), np, c.toks(), c.vals()); return; }
    switch(np) {
      case 0: RiArchiveBegin(const_cast<char*>(c.str(0)), RI_NULL); return;
      case 1: RiArchiveBegin(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), RI_NULL); return;
      case 2: RiArchiveBegin(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), RI_NULL); return;
      case 3: RiArchiveBegin(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), RI_NULL); return;
      case 4: RiArchiveBegin(const_cast<char*>(c.str(0)), c.tok(0), c.val(0), c.tok(1), c.val(1), c.tok(2), c.val(2), c.tok(3), c.val(3), RI_NULL); return;
    } }
  if(n == "ArchiveEnd") {
    RiArchiveEnd(); return; }
  if(n == "ArchiveRecord") { RiArchiveRecord(const_cast<char*>(c.str(0)), const_cast<char*>("%s"), c.str(1)); return; }
  fatal("unknown request " + n);
}
#endif
