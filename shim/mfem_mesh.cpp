// Mesh, readers, refinement and sub-meshes of the MFEM stand-in.
#include "mfem.hpp"
#include <numeric>

namespace mfem {
const FiniteElement* shim_geometry_fe(Geometry::Type g, int k);

static const int segEt[1][2] = { { 0, 1 } };
static const int triEt[3][2] = { { 0, 1 }, { 1, 2 }, { 2, 0 } };
static const int quadEt[4][2] = { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 } };
static const int tetEt[6][2] = { { 0, 1 }, { 0, 2 }, { 0, 3 }, { 1, 2 }, { 1, 3 }, { 2, 3 } };
static const int hexEt[12][2] = { { 0, 1 }, { 1, 2 }, { 3, 2 }, { 0, 3 }, { 4, 5 }, { 5, 6 }, { 7, 6 }, { 4, 7 }, { 0, 4 }, { 1, 5 }, { 2, 6 }, { 3, 7 } };
static const int tetFt[4][4] = { { 1, 2, 3, -1 }, { 0, 3, 2, -1 }, { 0, 1, 3, -1 }, { 0, 2, 1, -1 } };
static const int hexFt[6][4] = { { 3, 2, 1, 0 }, { 0, 1, 5, 4 }, { 1, 2, 6, 5 }, { 2, 3, 7, 6 }, { 3, 0, 4, 7 }, { 4, 5, 6, 7 } };
static const int (*edgeT(Geometry::Type g))[2] { switch (g) { case Geometry::TRIANGLE: return triEt; case Geometry::SQUARE: return quadEt; case Geometry::TETRAHEDRON: return tetEt; case Geometry::CUBE: return hexEt; case Geometry::SEGMENT: return segEt; default: mfem_error("geometry not provided"); } }
/// local vertex numbers of local face lf of an element
static std::vector<int> localFace(Geometry::Type g, int lf)
{
   switch (g) {
      case Geometry::SEGMENT: return { lf };
      case Geometry::TRIANGLE: return { triEt[lf][0], triEt[lf][1] };
      case Geometry::SQUARE: return { quadEt[lf][0], quadEt[lf][1] };
      case Geometry::TETRAHEDRON: return { tetFt[lf][0], tetFt[lf][1], tetFt[lf][2] };
      case Geometry::CUBE: return { hexFt[lf][0], hexFt[lf][1], hexFt[lf][2], hexFt[lf][3] };
      default: mfem_error("geometry not provided");
   }
}
static int numLocalFaces(Geometry::Type g) { return Geometry::NumBdrArray[g]; }
static Geometry::Type faceGeomOf(std::size_t nv) { return nv == 1 ? Geometry::POINT : nv == 2 ? Geometry::SEGMENT : nv == 3 ? Geometry::TRIANGLE : Geometry::SQUARE; }

Element::Type Element::GetType() const { switch (base_geom) { case Geometry::POINT: return POINT; case Geometry::SEGMENT: return SEGMENT; case Geometry::TRIANGLE: return TRIANGLE; case Geometry::SQUARE: return QUADRILATERAL; case Geometry::TETRAHEDRON: return TETRAHEDRON; case Geometry::CUBE: return HEXAHEDRON; case Geometry::PRISM: return WEDGE; default: return PYRAMID; } }
const int* Element::GetEdgeVertices(int i) const { return edgeT(base_geom)[i]; }
int Element::GetNFaceVertices(int) const { return base_geom == Geometry::TETRAHEDRON ? 3 : base_geom == Geometry::CUBE ? 4 : 0; }
const int* Element::GetFaceVertices(int i) const { return base_geom == Geometry::TETRAHEDRON ? tetFt[i] : base_geom == Geometry::CUBE ? hexFt[i] : nullptr; }

// ------------------------------------------------------------------ construction
Mesh::Mesh() {}
Mesh::Mesh(int d, int, int, int, int sd) : Dim(d), spaceDim(sd < 0 ? d : sd) {}
Mesh::Mesh(const std::string& f, int, int refine, bool fix) { *this = LoadShim(f, refine, fix, true); }
Mesh::Mesh(std::istream& in, int, int refine, bool fix) { Load(in, 0, refine, fix); }
Mesh::~Mesh() { if (own_nodes) { deleteNodes(); } }
void Mesh::deleteNodes() { if (own_nodes) { delete Nodes; } Nodes = nullptr; own_nodes = false; }
void Mesh::copyFrom(const Mesh& o)
{
   Dim = o.Dim; spaceDim = o.spaceDim; vertices = o.vertices; elements.clear(); boundary.clear();
   for (auto& e : o.elements) { elements.emplace_back(new Element(*e)); } for (auto& e : o.boundary) { boundary.emplace_back(new Element(*e)); }
   faces_info = o.faces_info; faces = o.faces; face_geom = o.face_geom; el_to_face = o.el_to_face; el_to_edge = o.el_to_edge; el_edge_ori = o.el_edge_ori; el_face_ori = o.el_face_ori; edges = o.edges; be_to_face = o.be_to_face; finalized_topology = o.finalized_topology;
   attributes = o.attributes; bdr_attributes = o.bdr_attributes;
   if (o.Nodes) {
      auto* f = o.Nodes->FESpace(); auto* fec = FiniteElementCollection::New(f->FEColl()->Name()); auto* fes = new FiniteElementSpace(this, fec, f->GetVDim(), f->GetOrdering()); auto* gf = new GridFunction(fes); gf->MakeOwner(fec);
      static_cast<Vector&>(*gf) = static_cast<const Vector&>(*o.Nodes); Nodes = gf; own_nodes = true;
   }
}
void Mesh::takeFrom(Mesh& m)
{
   Dim = m.Dim; spaceDim = m.spaceDim; vertices = std::move(m.vertices); elements = std::move(m.elements); boundary = std::move(m.boundary); faces_info = std::move(m.faces_info); faces = std::move(m.faces); face_geom = std::move(m.face_geom);
   el_to_face = std::move(m.el_to_face); el_to_edge = std::move(m.el_to_edge); el_edge_ori = std::move(m.el_edge_ori); el_face_ori = std::move(m.el_face_ori); edges = std::move(m.edges); be_to_face = std::move(m.be_to_face); finalized_topology = m.finalized_topology;
   attributes = m.attributes; bdr_attributes = m.bdr_attributes; Nodes = m.Nodes; own_nodes = m.own_nodes; m.Nodes = nullptr; m.own_nodes = false; el_el_table.reset(); edge_table.reset(); face_table.reset(); face_elems.clear();
   m.vertices.clear(); m.elements.clear(); m.boundary.clear(); m.faces_info.clear(); m.faces.clear(); m.face_geom.clear(); m.edges.clear(); m.be_to_face.clear(); m.attributes.SetSize(0); m.bdr_attributes.SetSize(0);
   if (Nodes && Nodes->FESpace() && Nodes->FESpace()->mesh == &m) { Nodes->FESpace()->mesh = this; }
}
Mesh::Mesh(const Mesh& m, bool) { copyFrom(m); }
Mesh::Mesh(Mesh&& m) { takeFrom(m); }
Mesh& Mesh::operator=(Mesh&& m) { if (this != &m) { if (own_nodes) { deleteNodes(); } takeFrom(m); } return *this; }
int Mesh::AddVertex(double x, double y, double z) { double c[3] = { x, y, z }; vertices.emplace_back(c, 3); return GetNV() - 1; }

// ------------------------------------------------------------------ topology
static int triOri(const int* base, const int* test)
{
   if (test[0] == base[0]) { return test[1] == base[1] ? 0 : 5; }
   if (test[0] == base[1]) { return test[1] == base[0] ? 1 : 2; }
   return test[1] == base[0] ? 4 : 3;
}
static int quadOri(const int* base, const int* test) { int i = 0; for (; i < 4; i++) { if (test[i] == base[0]) { break; } } if (i == 4) { return 0; } return test[(i + 1) % 4] == base[1] ? 2 * i : 2 * i + 1; }
static std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
void Mesh::buildTopology(bool generate_bdr)
{
   faces_info.clear(); faces.clear(); face_geom.clear(); edges.clear(); be_to_face.clear(); el_el_table.reset(); edge_table.reset(); face_table.reset(); face_elems.clear();
   const int ne = GetNE(); el_to_face.assign(ne, {}); el_to_edge.assign(ne, {}); el_edge_ori.assign(ne, {}); el_face_ori.assign(ne, {});
   std::map<std::vector<int>, int> fid; std::map<std::array<int, 2>, int> eid;
   if (Dim == 1) { faces_info.resize(GetNV()); faces.resize(GetNV()); face_geom.assign(GetNV(), Geometry::POINT); for (int v = 0; v < GetNV(); v++) { faces[v] = { v }; fid[{ v }] = v; } }
   for (int e = 0; e < ne; e++) {
      const Element& el = *elements[e]; const Geometry::Type g = el.GetGeometryType(); const int* v = el.GetVertices();
      for (int k = 0; k < el.GetNVertices(); k++) { SHIM_CHECK(v[k], GetNV(), "element vertex") }
      if (Dim > 1) for (int k = 0; k < Geometry::NumEdges[g]; k++) {
         int a = v[edgeT(g)[k][0]], b = v[edgeT(g)[k][1]]; std::array<int, 2> key{ std::min(a, b), std::max(a, b) }; auto it = eid.find(key);
         if (it == eid.end()) { it = eid.emplace(key, (int)edges.size()).first; edges.push_back(key); } el_to_edge[e].push_back(it->second); el_edge_ori[e].push_back(a < b ? 1 : -1);
      }
      for (int lf = 0; lf < numLocalFaces(g); lf++) {
         auto lv = localFace(g, lf); std::vector<int> fv; for (int x : lv) { fv.push_back(v[x]); }
         auto key = sorted(fv); auto it = fid.find(key); int f;
         if (it == fid.end()) { f = (int)faces_info.size(); fid.emplace(key, f); faces_info.emplace_back(); faces.push_back(fv); face_geom.push_back(faceGeomOf(fv.size())); }
         else { f = it->second; }
         auto& fi = faces_info[f]; el_to_face[e].push_back(f);
         if (fi.Elem1No < 0) { fi.Elem1No = e; fi.Elem1Inf = 64 * lf; faces[f] = fv; el_face_ori[e].push_back(0); }
         else {
            MFEM_VERIFY(fi.Elem2No < 0, "Invalid mesh topology. Face " << f << " shared by more than two elements.");
            int o = Dim == 3 ? (fv.size() == 3 ? triOri(faces[f].data(), fv.data()) : quadOri(faces[f].data(), fv.data())) : 1;
            fi.Elem2No = e; fi.Elem2Inf = 64 * lf + o; el_face_ori[e].push_back(o);
         }
      }
   }
   if (boundary.empty() && generate_bdr) { GenerateBoundaryElements(); }
   for (auto& b : boundary) {
      std::vector<int> bv(b->GetVertices(), b->GetVertices() + b->GetNVertices()); auto it = fid.find(sorted(bv));
      MFEM_VERIFY(it != fid.end(), "boundary element without a matching face");
      MFEM_VERIFY(faces_info[it->second].Elem1No >= 0, "boundary element on a face of no element"); be_to_face.push_back(it->second);
   }
   SetAttributes(); finalized_topology = true;
}
void Mesh::GenerateBoundaryElements()
{
   boundary.clear(); for (std::size_t f = 0; f < faces_info.size(); f++) { if (faces_info[f].Elem1No >= 0 && faces_info[f].Elem2No < 0 && faces_info[f].Elem2Inf < 0) { boundary.emplace_back(new Element(face_geom[f], faces[f].data(), 1)); } }
}
void Mesh::FinalizeTopology(bool gen) { buildTopology(gen); }
void Mesh::SetAttributes(bool, bool)
{
   std::set<int> a, b; for (auto& e : elements) { a.insert(e->GetAttribute()); } for (auto& e : boundary) { b.insert(e->GetAttribute()); }
   attributes.SetSize(0); bdr_attributes.SetSize(0); for (int x : a) { attributes.Append(x); } for (int x : b) { bdr_attributes.Append(x); }
   if (attributes.Size() && attributes[0] <= 0) { MFEM_WARNING("Non-positive attributes in the domain!"); }
}
void Mesh::checkElementOrientation()
{
   if (Nodes || !(Dim == spaceDim) || Dim == 1) { return; }
   for (auto& e : elements) {
      int* v = e->GetVertices(); auto P = [&](int i) { return vertices[v[i]](); };
      auto cross2 = [&](int a, int b, int c) { return (P(b)[0] - P(a)[0]) * (P(c)[1] - P(a)[1]) - (P(b)[1] - P(a)[1]) * (P(c)[0] - P(a)[0]); };
      if (e->GetGeometryType() == Geometry::TRIANGLE) { if (cross2(0, 1, 2) < 0) { std::swap(v[0], v[1]); } }
      else if (e->GetGeometryType() == Geometry::SQUARE) { if (cross2(0, 1, 3) < 0) { std::swap(v[1], v[3]); } }
      else if (e->GetGeometryType() == Geometry::TETRAHEDRON) {
         double a[3], b[3], c[3]; for (int d = 0; d < 3; d++) { a[d] = P(1)[d] - P(0)[d]; b[d] = P(2)[d] - P(0)[d]; c[d] = P(3)[d] - P(0)[d]; }
         const double det = a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]); if (det < 0) { std::swap(v[0], v[1]); }
      }
   }
}
void Mesh::checkBdrOrientation()
{
   for (int i = 0; i < GetNBE(); i++) {
      const int f = be_to_face[i]; if (faces_info[f].Elem2No >= 0) { continue; } int* b = boundary[i]->GetVertices(); const auto& fv = faces[f];
      if (Dim == 2) { if (b[0] != fv[0]) { std::swap(b[0], b[1]); } }
      else if (Dim == 3 && fv.size() == 3) { if (triOri(fv.data(), b) % 2) { std::swap(b[0], b[1]); } }
      else if (Dim == 3) { if (quadOri(fv.data(), b) % 2) { std::swap(b[0], b[2]); } }
   }
}
void Mesh::MarkForRefinement()
{
   if (Nodes || Dim != 2) { return; }
   for (auto& e : elements) {
      if (e->GetGeometryType() != Geometry::TRIANGLE) { continue; }
      int* v = e->GetVertices(); auto D = [&](int a, int b) { double s = 0; for (int k = 0; k < spaceDim; k++) { const double d = vertices[v[a]]()[k] - vertices[v[b]]()[k]; s += d * d; } return s; };
      const double d0 = D(1, 0), d1 = D(2, 1), d2 = D(2, 0); const int s = d0 >= d1 ? (d0 >= d2 ? 0 : 2) : (d1 >= d2 ? 1 : 2); const int a = v[0], b = v[1], c = v[2];
      if (s == 1) { v[0] = b; v[1] = c; v[2] = a; } else if (s == 2) { v[0] = c; v[1] = a; v[2] = b; }
   }
}
void Mesh::Finalize(bool refine, bool fix)
{
   if (!finalized_topology) { buildTopology(true); }
   if (fix) { checkElementOrientation(); }
   if (refine) { MarkForRefinement(); }
   if (fix || refine) { buildTopology(false); }
   checkBdrOrientation();
   for (auto& e : elements) { if (e->GetAttribute() <= 0) { MFEM_WARNING("Non-positive attributes in the domain!"); break; } }
}
void Mesh::renumberAfterEdit(bool gen)
{
   std::vector<int> map(GetNV(), -1); for (auto& e : elements) for (int k = 0; k < e->GetNVertices(); k++) { map[e->GetVertices()[k]] = 0; } for (auto& e : boundary) for (int k = 0; k < e->GetNVertices(); k++) { map[e->GetVertices()[k]] = 0; }
   std::vector<Vertex> nv; for (std::size_t i = 0; i < map.size(); i++) { if (map[i] == 0) { map[i] = (int)nv.size(); nv.push_back(vertices[i]); } }
   vertices = nv; for (auto* l : { &elements, &boundary }) for (auto& e : *l) for (int k = 0; k < e->GetNVertices(); k++) { int& x = e->GetVertices()[k]; x = map[x]; }
   buildTopology(gen);
}

// ------------------------------------------------------------------ readers
static std::string line(std::istream& is) { std::string s; std::getline(is, s); filter_dos(s); return s; }
void Mesh::readMFEM(std::istream& is)
{
   std::string w; auto section = [&](const char* n) { do { if (!(is >> w)) { MFEM_ABORT("mesh file: section " << n << " not found"); } if (w[0] == '#') { line(is); w.clear(); } } while (w != n); };
   section("dimension"); is >> Dim; int n; section("elements"); is >> n; MFEM_VERIFY(is.good() && Dim >= 1 && Dim <= 3, "bad mesh header");
   auto readEl = [&](std::vector<std::unique_ptr<Element>>& out) { int attr, g; is >> attr >> g; MFEM_VERIFY(is.good() && g >= 0 && g <= 5, "bad element"); auto e = std::make_unique<Element>((Geometry::Type)g); e->SetAttribute(attr); for (int k = 0; k < e->GetNVertices(); k++) { is >> e->GetVertices()[k]; } out.push_back(std::move(e)); };
   for (int i = 0; i < n; i++) { readEl(elements); }
   section("boundary"); is >> n; for (int i = 0; i < n; i++) { readEl(boundary); }
   section("vertices"); int nv; is >> nv; MFEM_VERIFY(!is.fail() && nv >= 0, "bad vertices"); is >> std::ws; std::string t; is >> t;
   if (t == "nodes") {
      spaceDim = Dim; vertices.resize(nv); buildTopology(true); auto* g = new GridFunction(this, is); Nodes = g; own_nodes = true; spaceDim = g->VectorDim();
      for (int e = 0; e < GetNE(); e++) { const auto* fe = shim_geometry_fe(GetElementGeometry(e), 1); for (int k = 0; k < fe->GetDof(); k++) for (int d = 0; d < spaceDim; d++) { vertices[elements[e]->GetVertices()[k]](d) = g->GetValue(e, fe->GetNodes()[k], d + 1); } }
      return;
   }
   spaceDim = std::stoi(t); for (int i = 0; i < nv; i++) { double c[3] = { 0, 0, 0 }; for (int d = 0; d < spaceDim; d++) { is >> c[d]; } MFEM_VERIFY(!is.fail(), "truncated vertices"); vertices.emplace_back(c, 3); }
}
static Geometry::Type gmshGeom(int t, int& order, int& nn)
{
   switch (t) {
      case 15: order = 1; nn = 1; return Geometry::POINT; case 1: order = 1; nn = 2; return Geometry::SEGMENT; case 2: order = 1; nn = 3; return Geometry::TRIANGLE; case 3: order = 1; nn = 4; return Geometry::SQUARE; case 4: order = 1; nn = 4; return Geometry::TETRAHEDRON; case 5: order = 1; nn = 8; return Geometry::CUBE;
      case 8: order = 2; nn = 3; return Geometry::SEGMENT; case 9: order = 2; nn = 6; return Geometry::TRIANGLE; case 10: order = 2; nn = 9; return Geometry::SQUARE; case 11: order = 2; nn = 10; return Geometry::TETRAHEDRON; case 12: order = 2; nn = 27; return Geometry::CUBE;
      default: MFEM_ABORT("Unsupported Gmsh element type " << t);
   }
}
static const std::vector<std::vector<int>>& gmsh2(Geometry::Type g)
{
   static const std::vector<std::vector<int>> seg{ { 0, 1 } }, tri{ { 0, 1 }, { 1, 2 }, { 0, 2 } }, quad{ { 0, 1 }, { 1, 2 }, { 2, 3 }, { 0, 3 }, { 0, 1, 2, 3 } }, tet{ { 0, 1 }, { 1, 2 }, { 0, 2 }, { 0, 3 }, { 2, 3 }, { 1, 3 } },
      hex{ { 0, 1 }, { 0, 3 }, { 0, 4 }, { 1, 2 }, { 1, 5 }, { 2, 3 }, { 2, 6 }, { 3, 7 }, { 4, 5 }, { 4, 7 }, { 5, 6 }, { 6, 7 }, { 0, 1, 2, 3 }, { 0, 1, 4, 5 }, { 0, 3, 4, 7 }, { 1, 2, 5, 6 }, { 2, 3, 6, 7 }, { 4, 5, 6, 7 }, { 0, 1, 2, 3, 4, 5, 6, 7 } }, none;
   switch (g) { case Geometry::SEGMENT: return seg; case Geometry::TRIANGLE: return tri; case Geometry::SQUARE: return quad; case Geometry::TETRAHEDRON: return tet; case Geometry::CUBE: return hex; default: return none; }
}
void Mesh::readGmsh(std::istream& is) { readGmshImpl(is); }
void Mesh::readGmshImpl(std::istream& is)
{
   double ver; int bin, dsize; is >> ver >> bin >> dsize; MFEM_VERIFY(ver >= 2.2 && ver < 4, "Gmsh file version < 2.2"); MFEM_VERIFY(bin == 0, "binary Gmsh files are not provided by the stand-in");
   std::map<int, int> vid; std::vector<std::unique_ptr<Element>> byDim[4]; std::vector<std::vector<int>> hoByDim[4]; int order = 1; double mn[3] = { 1e300, 1e300, 1e300 }, mx[3] = { -1e300, -1e300, -1e300 }; std::string w;
   while (is >> w) {
      if (w == "$Nodes") { int n; is >> n; line(is); for (int i = 0; i < n; i++) { int id; double c[3]; is >> id >> c[0] >> c[1] >> c[2]; MFEM_VERIFY(!is.fail(), "Gmsh file : bad vertex"); vid[id] = (int)vertices.size(); vertices.emplace_back(c, 3); for (int d = 0; d < 3; d++) { mn[d] = std::min(mn[d], c[d]); mx[d] = std::max(mx[d], c[d]); } } MFEM_VERIFY((int)vid.size() == n, "Gmsh file : vertices indices are not unique"); }
      else if (w == "$Elements") {
         int n; is >> n;
         for (int i = 0; i < n; i++) {
            int id, t, nt; is >> id >> t >> nt; MFEM_VERIFY(!is.fail() && nt >= 0, "Gmsh file : bad element"); std::vector<int> tags(nt); for (auto& x : tags) { is >> x; } const int phys = nt > 0 ? tags[0] : 1; MFEM_VERIFY(phys > 0, "Non-positive element attribute in Gmsh mesh!"); int o, nn; auto g = gmshGeom(t, o, nn); order = std::max(order, o);
            std::vector<int> nd(nn); for (auto& x : nd) { int v; is >> v; auto it = vid.find(v); MFEM_VERIFY(it != vid.end(), "Gmsh file : vertex index doesn't exist"); x = it->second; }
            const int d = Geometry::Dimension[g]; byDim[d].emplace_back(new Element(g, nd.data(), phys)); hoByDim[d].push_back(nd);
         }
      }
   }
   Dim = !byDim[3].empty() ? 3 : !byDim[2].empty() ? 2 : !byDim[1].empty() ? 1 : 0; MFEM_VERIFY(Dim > 0, "Gmsh file : no elements found");
   elements = std::move(byDim[Dim]); boundary = std::move(byDim[Dim - 1]); spaceDim = 1; if (mx[1] - mn[1] > 0 || Dim > 1) { spaceDim++; } if (mx[2] - mn[2] > 0 || Dim > 2) { spaceDim++; }
   if (Dim == 1 && mx[2] - mn[2] > 0) { spaceDim = 3; }
   auto verts = vertices; renumberAfterEdit(true);
   if (order > 1) {
      SetCurvature(2, false, spaceDim, Ordering::byVDIM); auto* fes = Nodes->FESpace(); Array<int> d;
      for (int e = 0; e < GetNE(); e++) {
         fes->GetElementDofs(e, d); const auto g = GetElementGeometry(e); const auto* fe = dynamic_cast<const NodalFiniteElement*>(fes->GetFE(e)); const auto* lin = shim_geometry_fe(g, 1); Vector sh(lin->GetDof()); const auto& nd = hoByDim[Dim][e]; const int nv = Geometry::NumVerts[g];
         for (int k = 0; k < d.Size(); k++) {
            lin->CalcShape(fe->GetNodes()[k], sh); std::vector<int> nz; for (int q = 0; q < sh.Size(); q++) { if (std::abs(sh(q)) > 1e-10) { nz.push_back(q); } } int src = -1;
            if (nz.size() == 1) { src = nd[nz[0]]; } else { const auto& G = gmsh2(g); for (std::size_t q = 0; q < G.size(); q++) { if (G[q] == nz && nv + q < nd.size()) { src = nd[nv + q]; } } }
            if (src < 0) { continue; }
            for (int c = 0; c < spaceDim; c++) { (*Nodes)(fes->DofToVDof(d[k], c)) = verts[src]()[c]; }
         }
      }
   }
}
void Mesh::Load(std::istream& in, int, int refine, bool fix)
{
   if (own_nodes) { deleteNodes(); } vertices.clear(); elements.clear(); boundary.clear(); std::string h; in >> std::ws; h = line(in);
   if (h.find("MFEM mesh v1.0") == 0) { readMFEM(in); } else if (h.find("$MeshFormat") == 0) { readGmsh(in); } else { MFEM_ABORT("Unknown input mesh format: " << h); }
   if (!Nodes) { buildTopology(true); }
   Finalize(refine, fix);
}
Mesh Mesh::LoadShim(const std::string& fn, int refine, bool fix, bool bdrfix)
{
   std::ifstream f(fn); if (!f) { MFEM_ABORT("Mesh file not found: " << fn << '\n'); }
   Mesh m; std::string h; f >> std::ws; h = line(f);
   if (h.find("MFEM mesh v1.0") == 0) { m.readMFEM(f); } else if (h.find("$MeshFormat") == 0) { m.readGmsh(f); } else { MFEM_ABORT("Unknown input mesh format: " << h); }
   if (!m.Nodes) { m.buildTopology(true); }
   std::vector<std::vector<int>> keep; if (!bdrfix) { for (auto& b : m.boundary) { keep.emplace_back(b->GetVertices(), b->GetVertices() + b->GetNVertices()); } }
   m.Finalize(refine, fix);
   for (std::size_t i = 0; i < keep.size(); i++) { m.boundary[i]->SetVertices(keep[i].data()); }
   return m;
}
Mesh Mesh::LoadFromFile(const std::string& fn, int, int refine, bool fix) { shim_mpi_stagger(2000); return LoadShim(fn, refine, fix, true); }
Mesh Mesh::LoadFromFileNoBdrFix(const std::string& fn, int, int refine, bool fix) { return LoadShim(fn, refine, fix, false); }

// ------------------------------------------------------------------ generators
Mesh Mesh::MakeCartesian1D(int n, double sx)
{
   Mesh m(1, n + 1, n); for (int i = 0; i <= n; i++) { m.AddVertex(double(i) / n * sx); } for (int i = 0; i < n; i++) { m.AddSegment(i, i + 1, 1); } m.AddBdrPoint(0, 1); m.AddBdrPoint(n, 2); m.FinalizeTopology(); m.Finalize(false, false); return m;
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static void hilbert(int x, int y, int ax, int ay, int bx, int by, std::vector<std::array<int, 2>>& c)
{
   int w = std::abs(ax + ay), h = std::abs(bx + by), dax = sgn(ax), day = sgn(ay), dbx = sgn(bx), dby = sgn(by);
   if (h == 1) { for (int i = 0; i < w; i++, x += dax, y += day) { c.push_back({ x, y }); } return; }
   if (w == 1) { for (int i = 0; i < h; i++, x += dbx, y += dby) { c.push_back({ x, y }); } return; }
   int ax2 = ax / 2, ay2 = ay / 2, bx2 = bx / 2, by2 = by / 2, w2 = std::abs(ax2 + ay2), h2 = std::abs(bx2 + by2);
   if (2 * w > 3 * h) { if ((w2 & 1) && w > 2) { ax2 += dax; ay2 += day; } hilbert(x, y, ax2, ay2, bx, by, c); hilbert(x + ax2, y + ay2, ax - ax2, ay - ay2, bx, by, c); }
   else {
      if ((h2 & 1) && h > 2) { bx2 += dbx; by2 += dby; }
      hilbert(x, y, bx2, by2, ax2, ay2, c); hilbert(x + bx2, y + by2, ax, ay, bx - bx2, by - by2, c); hilbert(x + (ax - dax) + (bx2 - dbx), y + (ay - day) + (by2 - dby), -bx2, -by2, -(ax - ax2), -(ay - ay2), c);
   }
}
Mesh Mesh::MakeCartesian2D(int nx, int ny, Element::Type type, bool, double sx, double sy, bool sfc)
{
   Mesh m(2, 0, 0); for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) { m.AddVertex(double(i) / nx * sx, double(j) / ny * sy); }
   auto V = [&](int i, int j) { return j * (nx + 1) + i; };
   if (type == Element::QUADRILATERAL) {
      std::vector<std::array<int, 2>> c; if (sfc) { if (nx >= ny) { hilbert(0, 0, nx, 0, 0, ny, c); } else { hilbert(0, 0, 0, ny, nx, 0, c); } } else { for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { c.push_back({ i, j }); } }
      for (auto [i, j] : c) { m.AddQuad(V(i, j), V(i + 1, j), V(i + 1, j + 1), V(i, j + 1)); }
   } else if (type == Element::TRIANGLE) { for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { m.AddTriangle(V(i, j), V(i + 1, j + 1), V(i, j + 1)); m.AddTriangle(V(i, j), V(i + 1, j), V(i + 1, j + 1)); } }
   else { MFEM_ABORT("Unsupported element type."); }
   for (int i = 0; i < nx; i++) { m.AddBdrSegment(V(i, 0), V(i + 1, 0), 1); } for (int i = 0; i < nx; i++) { m.AddBdrSegment(V(i + 1, ny), V(i, ny), 3); }
   for (int j = 0; j < ny; j++) { m.AddBdrSegment(V(0, j + 1), V(0, j), 4); } for (int j = 0; j < ny; j++) { m.AddBdrSegment(V(nx, j), V(nx, j + 1), 2); }
   m.FinalizeTopology(); m.Finalize(type == Element::TRIANGLE, false); return m;
}
Mesh Mesh::MakeCartesian3D(int nx, int ny, int nz, Element::Type type, double sx, double sy, double sz, bool)
{
   Mesh m(3, 0, 0); for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) { m.AddVertex(double(i) / nx * sx, double(j) / ny * sy, double(k) / nz * sz); }
   auto V = [&](int i, int j, int k) { return i + (j + k * (ny + 1)) * (nx + 1); };
   MFEM_VERIFY(type == Element::HEXAHEDRON || type == Element::TETRAHEDRON, "Unsupported element type.");
   static const int T[6][4] = { { 0, 1, 2, 6 }, { 0, 5, 1, 6 }, { 0, 4, 5, 6 }, { 0, 2, 3, 6 }, { 0, 3, 7, 6 }, { 0, 7, 4, 6 } };
   for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
      int v[8] = { V(i, j, k), V(i + 1, j, k), V(i + 1, j + 1, k), V(i, j + 1, k), V(i, j, k + 1), V(i + 1, j, k + 1), V(i + 1, j + 1, k + 1), V(i, j + 1, k + 1) };
      if (type == Element::HEXAHEDRON) { m.AddHex(v); } else for (auto& t : T) { m.AddTet(v[t[0]], v[t[1]], v[t[2]], v[t[3]]); }
   }
   auto Q = [&](int a, int b, int c, int d, int attr) { if (type == Element::HEXAHEDRON) { m.AddBdrQuad(a, b, c, d, attr); } else { m.AddBdrTriangle(a, b, c, attr); m.AddBdrTriangle(a, c, d, attr); } };
   for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) { Q(V(x, y, 0), V(x, y + 1, 0), V(x + 1, y + 1, 0), V(x + 1, y, 0), 1); }
   for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) { Q(V(x, y, nz), V(x + 1, y, nz), V(x + 1, y + 1, nz), V(x, y + 1, nz), 6); }
   for (int z = 0; z < nz; z++) for (int y = 0; y < ny; y++) { Q(V(0, y, z), V(0, y, z + 1), V(0, y + 1, z + 1), V(0, y + 1, z), 5); }
   for (int z = 0; z < nz; z++) for (int y = 0; y < ny; y++) { Q(V(nx, y, z), V(nx, y + 1, z), V(nx, y + 1, z + 1), V(nx, y, z + 1), 3); }
   for (int x = 0; x < nx; x++) for (int z = 0; z < nz; z++) { Q(V(x, 0, z), V(x + 1, 0, z), V(x + 1, 0, z + 1), V(x, 0, z + 1), 2); }
   for (int x = 0; x < nx; x++) for (int z = 0; z < nz; z++) { Q(V(x, ny, z), V(x, ny, z + 1), V(x + 1, ny, z + 1), V(x + 1, ny, z), 4); }
   m.FinalizeTopology(); m.Finalize(false, false); return m;
}
std::vector<int> Mesh::CreatePeriodicVertexMapping(const std::vector<Vector>& tr, double tol) const
{
   const int n = GetNV(); std::vector<int> root(n); std::iota(root.begin(), root.end(), 0); auto find = [&](int x) { while (root[x] != x) { x = root[x]; } return x; };
   std::vector<char> bd(n, 0); for (auto& b : boundary) for (int k = 0; k < b->GetNVertices(); k++) { bd[b->GetVertices()[k]] = 1; }
   for (auto& t : tr) for (int i = 0; i < n; i++) { if (!bd[i]) { continue; } for (int j = 0; j < n; j++) { if (!bd[j]) { continue; } double s = 0; for (int d = 0; d < spaceDim; d++) { const double q = vertices[i]()[d] + t(d) - vertices[j]()[d]; s += q * q; } if (std::sqrt(s) < tol * 10 + 1e-10) { int a = find(i), b = find(j); if (a != b) { root[std::max(a, b)] = std::min(a, b); } } } }
   std::vector<int> r(n); for (int i = 0; i < n; i++) { r[i] = find(i); } return r;
}
Mesh Mesh::MakePeriodic(const Mesh& o, const std::vector<int>& v2v)
{
   Mesh m(o); m.SetCurvature(1, true, o.spaceDim, Ordering::byVDIM); GridFunction* nodes = m.Nodes; m.Nodes = nullptr; bool own = m.own_nodes; m.own_nodes = false;
   for (auto* l : { &m.elements, &m.boundary }) for (auto& e : *l) for (int k = 0; k < e->GetNVertices(); k++) { int& x = e->GetVertices()[k]; x = v2v[x]; }
   auto all = std::move(m.boundary); m.boundary.clear();
   // drop boundary elements which became interior
   { Mesh t(m.Dim, 0, 0, 0, m.spaceDim); t.vertices = m.vertices; for (auto& e : m.elements) { t.elements.emplace_back(new Element(*e)); } for (auto& e : all) { t.boundary.emplace_back(new Element(*e)); } t.buildTopology(false); for (std::size_t i = 0; i < all.size(); i++) { if (t.faces_info[t.be_to_face[i]].Elem2No < 0) { m.boundary.push_back(std::move(all[i])); } } }
   m.renumberAfterEdit(false); m.Nodes = nodes; m.own_nodes = own; nodes->FESpace()->mesh = &m; m.SetAttributes(); return m;
}
int* Mesh::GeneratePartitioning(int np, int)
{
   int* p = new int[GetNE()]; std::vector<std::array<double, 3>> c(GetNE()); Vector v; for (int e = 0; e < GetNE(); e++) { GetElementCenter(e, v); c[e] = { 0, 0, 0 }; for (int d = 0; d < v.Size(); d++) { c[e][d] = v(d); } }
   std::function<void(std::vector<int>, int, int)> rec = [&](std::vector<int> ids, int first, int n) {
      if (n <= 1) { for (int e : ids) { p[e] = first; } return; }
      double lo[3] = { 1e300, 1e300, 1e300 }, hi[3] = { -1e300, -1e300, -1e300 }; for (int e : ids) for (int d = 0; d < 3; d++) { lo[d] = std::min(lo[d], c[e][d]); hi[d] = std::max(hi[d], c[e][d]); }
      int ax = 0; for (int d = 1; d < 3; d++) { if (hi[d] - lo[d] > hi[ax] - lo[ax] + 1e-12) { ax = d; } }
      std::stable_sort(ids.begin(), ids.end(), [&](int a, int b) { return c[a][ax] > c[b][ax]; }); const int n1 = (n + 1) / 2; std::size_t k = ids.size() * n1 / n;
      rec({ ids.begin(), ids.begin() + k }, first, n1); rec({ ids.begin() + k, ids.end() }, first + n1, n - n1);
   };
   std::vector<int> ids(GetNE()); std::iota(ids.begin(), ids.end(), 0); rec(ids, 0, np); return p;
}
int* Mesh::CartesianPartitioning(int nxyz[]) { Vector mn, mx, c; GetBoundingBox(mn, mx); int* p = new int[GetNE()]; for (int e = 0; e < GetNE(); e++) { GetElementCenter(e, c); int part = 0; for (int d = spaceDim - 1; d >= 0; d--) { int i = (int)std::floor(nxyz[d] * (c(d) - mn(d)) / (mx(d) - mn(d))); i = std::min(std::max(i, 0), nxyz[d] - 1); part = part * nxyz[d] + i; } p[e] = part; } return p; }

// ------------------------------------------------------------------ queries
long long Mesh::GetGlobalNE() const { return ReduceInt(GetNE()); }
void Mesh::GetVertices(Vector& c) const { c.SetSize(GetNV() * spaceDim); for (int d = 0; d < spaceDim; d++) for (int i = 0; i < GetNV(); i++) { c(d * GetNV() + i) = vertices[i]()[d]; } }
void Mesh::SetVertices(const Vector& c) { for (int d = 0; d < spaceDim; d++) for (int i = 0; i < GetNV(); i++) { vertices[i](d) = c(d * GetNV() + i); } }
const Element* Mesh::GetFace(int i) const { SHIM_CHECK(i, GetNumFaces(), "Mesh::GetFace") if (face_elems.size() != faces.size()) { face_elems.clear(); face_elems.resize(faces.size()); } if (!face_elems[i]) { face_elems[i] = std::make_unique<Element>(face_geom[i], faces[i].data(), 1); } return face_elems[i].get(); }
Element::Type Mesh::GetFaceElementType(int f) const { return GetFace(f)->GetType(); }
void Mesh::GetElementEdges(int i, Array<int>& e, Array<int>& cor) const { SHIM_CHECK(i, GetNE(), "Mesh::GetElementEdges") if (Dim == 1) { e.SetSize(1); e[0] = i; cor.SetSize(1); cor[0] = 1; return; } e.SetSize((int)el_to_edge[i].size()); cor.SetSize(e.Size()); for (int k = 0; k < e.Size(); k++) { e[k] = el_to_edge[i][k]; cor[k] = el_edge_ori[i][k]; } }
void Mesh::GetElementFaces(int i, Array<int>& f, Array<int>& o) const { SHIM_CHECK(i, GetNE(), "Mesh::GetElementFaces") f.SetSize((int)el_to_face[i].size()); o.SetSize(f.Size()); for (int k = 0; k < f.Size(); k++) { f[k] = el_to_face[i][k]; o[k] = el_face_ori[i][k]; } }
void Mesh::GetBdrElementEdges(int i, Array<int>& e, Array<int>& cor) const
{
   const int f = GetBdrElementFaceIndex(i); const int* b = boundary[i]->GetVertices();
   if (Dim == 2) { e.SetSize(1); cor.SetSize(1); for (std::size_t k = 0; k < edges.size(); k++) { if (edges[k][0] == std::min(b[0], b[1]) && edges[k][1] == std::max(b[0], b[1])) { e[0] = (int)k; } } cor[0] = b[0] < b[1] ? 1 : -1; return; }
   GetFaceEdges(f, e, cor);
}
void Mesh::GetBdrElementFace(int i, int* f, int* o) const { *f = GetBdrElementFaceIndex(i); const auto& fv = faces[*f]; const int* b = boundary[i]->GetVertices(); *o = Dim == 3 ? (fv.size() == 3 ? triOri(fv.data(), b) : quadOri(fv.data(), b)) : (Dim == 2 ? (fv[0] == b[0] ? 0 : 1) : 0); }
void Mesh::GetFaceVertices(int i, Array<int>& v) const { SHIM_CHECK(i, GetNumFaces(), "Mesh::GetFaceVertices") v.SetSize((int)faces[i].size()); for (int k = 0; k < v.Size(); k++) { v[k] = faces[i][k]; } }
void Mesh::GetEdgeVertices(int i, Array<int>& v) const { SHIM_CHECK(i, (int)edges.size(), "Mesh::GetEdgeVertices") v.SetSize(2); v[0] = edges[i][0]; v[1] = edges[i][1]; }
void Mesh::GetFaceEdges(int i, Array<int>& e, Array<int>& o) const
{
   e.SetSize(0); o.SetSize(0); if (Dim == 2) { e.Append(i); o.Append(faces[i][0] < faces[i][1] ? 1 : -1); return; } if (Dim < 2) { return; }
   const auto& fv = faces[i]; const int el = faces_info[i].Elem1No; for (std::size_t k = 0; k < fv.size(); k++) { int a = fv[k], b = fv[(k + 1) % fv.size()]; for (int q : el_to_edge[el]) { if (edges[q][0] == std::min(a, b) && edges[q][1] == std::max(a, b)) { e.Append(q); o.Append(a < b ? 1 : -1); } } }
}
Array<int> Mesh::FindFaceNeighbors(const int e) const
{
   SHIM_CHECK(e, GetNE(), "Mesh::FindFaceNeighbors") std::set<int> s{ e }; for (int f : el_to_face[e]) { if (faces_info[f].Elem1No >= 0) { s.insert(faces_info[f].Elem1No); } if (faces_info[f].Elem2No >= 0) { s.insert(faces_info[f].Elem2No); } } Array<int> r; for (int x : s) { r.Append(x); } return r;
}
Array<int> Mesh::GetFaceToBdrElMap() const { Array<int> r(GetNumFaces()); r = -1; for (int b = 0; b < GetNBE(); b++) { r[be_to_face[b]] = b; } return r; }
void Mesh::GetBdrElementAdjacentElement(int be, int& el, int& info) const { int f, o; GetBdrElementFace(be, &f, &o); el = faces_info[f].Elem1No; info = faces_info[f].Elem1Inf + o; }
const Table& Mesh::ElementToElementTable() { if (!el_el_table) { el_el_table = std::make_unique<Table>(GetNE()); for (auto& f : faces_info) { if (f.Elem1No >= 0 && f.Elem2No >= 0) { el_el_table->raw()[f.Elem1No].push_back(f.Elem2No); el_el_table->raw()[f.Elem2No].push_back(f.Elem1No); } } } return *el_el_table; }
const Table& Mesh::ElementToFaceTable() const { if (!face_table) { face_table = std::make_unique<Table>(GetNE()); face_table->raw() = el_to_face; } return *face_table; }
const Table& Mesh::ElementToEdgeTable() const { if (!edge_table) { edge_table = std::make_unique<Table>(GetNE()); edge_table->raw() = el_to_edge; } return *edge_table; }
Table* Mesh::GetVertexToElementTable() { auto* t = new Table(GetNV()); for (int e = 0; e < GetNE(); e++) for (int k = 0; k < elements[e]->GetNVertices(); k++) { t->raw()[elements[e]->GetVertices()[k]].push_back(e); } return t; }
Mesh::FaceInformation Mesh::GetFaceInformation(int f) const
{
   SHIM_CHECK(f, GetNumFaces(), "face") FaceInformation r; const auto& i = faces_info[f]; r.element[0].location = ElementLocation::Local; r.element[0].conformity = ElementConformity::Coincident; r.element[0].index = i.Elem1No; r.element[0].local_face_id = i.Elem1Inf / 64; r.element[0].orientation = i.Elem1Inf % 64;
   if (i.Elem2No >= 0) { r.topology = FaceTopology::Conforming; r.tag = FaceInfoTag::LocalConforming; r.element[1].location = ElementLocation::Local; r.element[1].conformity = ElementConformity::Coincident; r.element[1].index = i.Elem2No; r.element[1].local_face_id = i.Elem2Inf / 64; r.element[1].orientation = i.Elem2Inf % 64; }
   else if (i.Elem2Inf >= 0) { r.topology = FaceTopology::Conforming; r.tag = FaceInfoTag::SharedConforming; r.element[1].location = ElementLocation::FaceNbr; r.element[1].index = -1 - i.Elem2No; r.element[1].local_face_id = i.Elem2Inf / 64; }
   else { r.topology = FaceTopology::Boundary; r.tag = FaceInfoTag::Boundary; }
   return r;
}
int Mesh::GetNumGeometries(int d) const { std::set<int> s; for (auto& e : elements) { if (Geometry::Dimension[e->GetGeometryType()] == d) { s.insert(e->GetGeometryType()); } } return (int)s.size(); }

// ------------------------------------------------------------------ transformations
int Mesh::nodeOrder() const { return Nodes ? Nodes->FESpace()->FEColl()->GetOrder() : 1; }
void Mesh::fillElemTr(int i, IsoparametricTransformation& T) const
{
   SHIM_CHECK(i, GetNE(), "Mesh::GetElementTransformation") T.Attribute = elements[i]->GetAttribute(); T.ElementNo = i; T.ElementType = ElementTransformation::ELEMENT; T.mesh = this; T.Reset();
   auto& P = T.GetPointMat();
   if (!Nodes) {
      T.SetFE(shim_geometry_fe(elements[i]->GetGeometryType(), 1)); const int n = elements[i]->GetNVertices(); const int* v = elements[i]->GetVertices(); P.SetSize(spaceDim, n);
      for (int k = 0; k < n; k++) for (int d = 0; d < spaceDim; d++) { P(d, k) = vertices[v[k]]()[d]; }
      return;
   }
   const auto* f = Nodes->FESpace(); const auto* fe = f->FEColl()->FiniteElementForGeometry(elements[i]->GetGeometryType()); T.SetFE(fe); Array<int> d; f->GetElementDofs(i, d); P.SetSize(spaceDim, d.Size());
   for (int k = 0; k < d.Size(); k++) for (int c = 0; c < spaceDim; c++) { P(c, k) = (*Nodes)(f->DofToVDof(d[k], c)); }
}
ElementTransformation* Mesh::GetElementTransformation(int i) { fillElemTr(i, Transformation); return &Transformation; }
void Mesh::GetLocalFaceTransformation(Geometry::Type g, int lf, const std::vector<int>& elv, const std::vector<int>& fv, IsoparametricTransformation& T) const
{
   T.SetFE(shim_geometry_fe(faceGeomOf(fv.size()), 1)); const auto lv = localFace(g, lf); const auto* lin = shim_geometry_fe(g, 1); const int dim = Geometry::Dimension[g]; auto& P = T.GetPointMat(); P.SetSize(dim, (int)fv.size());
   for (std::size_t k = 0; k < fv.size(); k++) { int hit = -1; for (int x : lv) { if (elv[x] == fv[k]) { hit = x; } } if (hit < 0) { mfem_error("face does not match its element"); } double c[3]; lin->GetNodes()[hit].Get(c, dim); for (int d = 0; d < dim; d++) { P(d, (int)k) = c[d]; } }
   T.Reset();
}
/// geometry of a face: the element's map sampled at the face's own nodes
void Mesh::facePointMat(const IsoparametricTransformation& loc, ElementTransformation& el, IsoparametricTransformation& T) const
{
   const int k = nodeOrder(); const auto* fe = shim_geometry_fe(loc.GetGeometryType(), k); T.SetFE(fe); auto& P = T.GetPointMat(); P.SetSize(spaceDim, fe->GetDof()); IntegrationPointTransformation L; L.Transf.SetFE(loc.GetFE()); L.Transf.SetPointMat(loc.GetPointMat()); Vector x;
   for (int n = 0; n < fe->GetDof(); n++) { IntegrationPoint ip; L.Transform(fe->GetNodes()[n], ip); el.Transform(ip, x); for (int d = 0; d < spaceDim; d++) { P(d, n) = x(d); } } T.Reset();
}
static std::vector<int> vvec(const Element& e) { return { e.GetVertices(), e.GetVertices() + e.GetNVertices() }; }
void Mesh::GetFaceElementTransformations(int f, FaceElementTransformations& F, IsoparametricTransformation& T1, IsoparametricTransformation& T2, int mask) const
{
   SHIM_CHECK(f, GetNumFaces(), "Mesh::GetFaceElementTransformations") const auto& i = faces_info[f]; int m = 0; F.Elem1 = F.Elem2 = nullptr; F.Elem1No = i.Elem1No; F.Elem2No = i.Elem2No; F.Attribute = 1; F.ElementNo = f; F.ElementType = ElementTransformation::FACE; F.mesh = this;
   IsoparametricTransformation tmp; IsoparametricTransformation& e1 = (mask & 1) ? T1 : tmp; fillElemTr(i.Elem1No, e1); if (mask & 1) { F.Elem1 = &T1; m |= 1; }
   GetLocalFaceTransformation(elements[i.Elem1No]->GetGeometryType(), i.Elem1Inf / 64, vvec(*elements[i.Elem1No]), faces[f], F.Loc1.Transf); if (mask & 4) { m |= 4; }
   if (i.Elem2No >= 0) {
      if (mask & 2) { fillElemTr(i.Elem2No, T2); F.Elem2 = &T2; m |= 2; }
      if (mask & 8) { GetLocalFaceTransformation(elements[i.Elem2No]->GetGeometryType(), i.Elem2Inf / 64, vvec(*elements[i.Elem2No]), faces[f], F.Loc2.Transf); m |= 8; }
   }
   facePointMat(F.Loc1.Transf, e1, F); if (mask & 16) { m |= 16; } F.SetConfigurationMask(m);
}
FaceElementTransformations* Mesh::GetFaceElementTransformations(int f, int mask) { GetFaceElementTransformations(f, FaceElemTr, Transformation, Transformation2, mask); return &FaceElemTr; }
FaceElementTransformations* Mesh::GetBdrFaceTransformations(int be)
{
   const int f = GetBdrElementFaceIndex(be); if (faces_info[f].Elem2No >= 0 || faces_info[f].Elem2Inf >= 0) { return nullptr; }
   auto* t = Mesh::GetFaceElementTransformations(f, 21), *r = t; r->Attribute = boundary[be]->GetAttribute(); r->ElementNo = be; r->ElementType = ElementTransformation::BDR_FACE; return r;
}
FaceElementTransformations* Mesh::GetInternalBdrFaceTransformations(int be)
{
   const int f = GetBdrElementFaceIndex(be); if (faces_info[f].Elem2No < 0 && faces_info[f].Elem2Inf < 0) { return nullptr; } // faces shared with another rank have one local side
   auto* r = Mesh::GetFaceElementTransformations(f, 31); r->Attribute = boundary[be]->GetAttribute(); r->ElementNo = be; r->ElementType = ElementTransformation::BDR_FACE; return r;
}
void Mesh::GetFaceTransformation(int f, IsoparametricTransformation* T) const
{
   SHIM_CHECK(f, GetNumFaces(), "face") const auto& i = faces_info[f]; IsoparametricTransformation e, loc; fillElemTr(i.Elem1No, e); GetLocalFaceTransformation(elements[i.Elem1No]->GetGeometryType(), i.Elem1Inf / 64, vvec(*elements[i.Elem1No]), faces[f], loc); facePointMat(loc, e, *T); T->Attribute = 1; T->ElementNo = f; T->ElementType = ElementTransformation::FACE; T->mesh = this;
}
ElementTransformation* Mesh::GetFaceTransformation(int f) { GetFaceTransformation(f, &FaceTransformation); return &FaceTransformation; }
void Mesh::GetBdrElementTransformation(int b, IsoparametricTransformation* T) const
{
   const int f = GetBdrElementFaceIndex(b); const auto& i = faces_info[f]; IsoparametricTransformation e, loc; fillElemTr(i.Elem1No, e); GetLocalFaceTransformation(elements[i.Elem1No]->GetGeometryType(), i.Elem1Inf / 64, vvec(*elements[i.Elem1No]), vvec(*boundary[b]), loc); facePointMat(loc, e, *T);
   T->Attribute = boundary[b]->GetAttribute(); T->ElementNo = b; T->ElementType = ElementTransformation::BDR_ELEMENT; T->mesh = this;
}
ElementTransformation* Mesh::GetBdrElementTransformation(int i) { GetBdrElementTransformation(i, &BdrTransformation); return &BdrTransformation; }
ElementTransformation* Mesh::GetEdgeTransformation(int e)
{
   if (Dim == 1) { return GetElementTransformation(e); } if (Dim == 2) { return GetFaceTransformation(e); }
   SHIM_CHECK(e, (int)edges.size(), "edge") auto& T = EdgeTransformation; T.SetFE(shim_geometry_fe(Geometry::SEGMENT, 1)); auto& P = T.GetPointMat(); P.SetSize(spaceDim, 2); for (int k = 0; k < 2; k++) for (int d = 0; d < spaceDim; d++) { P(d, k) = vertices[edges[e][k]]()[d]; } T.Attribute = 1; T.ElementNo = e; T.ElementType = ElementTransformation::EDGE; T.mesh = this; T.Reset(); return &T;
}
static IntegrationPoint centre(Geometry::Type g) { IntegrationPoint p; p.Init(0); switch (g) { case Geometry::TRIANGLE: p.Set3(1. / 3, 1. / 3, 0); break; case Geometry::TETRAHEDRON: p.Set3(.25, .25, .25); break; case Geometry::SEGMENT: p.Set3(.5, 0, 0); break; case Geometry::SQUARE: p.Set3(.5, .5, 0); break; default: p.Set3(.5, .5, .5); } return p; }
void Mesh::GetElementJacobian(int i, DenseMatrix& J, const IntegrationPoint* ip)
{
   const auto g = GetElementGeometry(i); IsoparametricTransformation T; fillElemTr(i, T); IntegrationPoint c = ip ? *ip : centre(g); T.SetIntPoint(&c);
   DenseMatrix P(Geometry::Dimension[g]); for (int d = 0; d < Geometry::Dimension[g]; d++) { P(d, d) = 1; }
   if (g == Geometry::TRIANGLE) { DenseMatrix A(2); A(0, 0) = 1; A(0, 1) = .5; A(1, 1) = std::sqrt(3.) / 2; A.Invert(); P = A; }
   if (g == Geometry::TETRAHEDRON) { DenseMatrix A(3); A(0, 0) = 1; A(0, 1) = .5; A(0, 2) = .5; A(1, 1) = std::sqrt(3.) / 2; A(1, 2) = std::sqrt(3.) / 6; A(2, 2) = std::sqrt(6.) / 3; A.Invert(); P = A; }
   J.SetSize(T.GetSpaceDim(), Geometry::Dimension[g]); Mult(T.Jacobian(), P, J); T.SetIntPoint(nullptr);
}
double Mesh::GetElementSize(int i, int type)
{
   DenseMatrix J; GetElementJacobian(i, J); if (type == 0) { return std::pow(std::abs(J.Weight()), 1. / Dim); } if (type == 1) { return J.CalcSingularvalue(Dim - 1); } return J.CalcSingularvalue(0);
}
double Mesh::GetElementSize(ElementTransformation* T, int type) const { return const_cast<Mesh*>(this)->GetElementSize(T->ElementNo, type); }
double Mesh::GetElementVolume(int i) { IsoparametricTransformation T; fillElemTr(i, T); const auto& ir = IntRules.Get(GetElementGeometry(i), T.OrderJ() * Dim); double v = 0; for (int q = 0; q < ir.Size(); q++) { T.SetIntPoint(&ir[q]); v += ir[q].weight * T.Weight(); } return v; }
void Mesh::GetElementCenter(int i, Vector& c) { IsoparametricTransformation T; fillElemTr(i, T); T.Transform(centre(GetElementGeometry(i)), c); }
void Mesh::GetBoundingBox(Vector& mn, Vector& mx, int ref)
{
   mn.SetSize(spaceDim); mx.SetSize(spaceDim); mn = std::numeric_limits<double>::infinity(); mx = -std::numeric_limits<double>::infinity(); auto add = [&](const double* x) { for (int d = 0; d < spaceDim; d++) { mn(d) = std::min(mn(d), x[d]); mx(d) = std::max(mx(d), x[d]); } };
   if (!Nodes) { for (auto& v : vertices) { add(v()); } return; }
   Vector x; for (int e = 0; e < GetNE(); e++) { IsoparametricTransformation T; fillElemTr(e, T); const auto* fe = shim_geometry_fe(GetElementGeometry(e), std::max(ref, 1)); for (int k = 0; k < fe->GetDof(); k++) { T.Transform(fe->GetNodes()[k], x); add(x.GetData()); } }
}
void Mesh::GetCharacteristics(double& hmin, double& hmax, double& kmin, double& kmax)
{
   hmin = kmin = std::numeric_limits<double>::infinity(); hmax = kmax = -hmin; DenseMatrix J; for (int e = 0; e < GetNE(); e++) { GetElementJacobian(e, J); const double h = std::pow(std::abs(J.Weight()), 1. / Dim), k = Dim == spaceDim ? J.CalcSingularvalue(0) / J.CalcSingularvalue(Dim - 1) : 1.0; hmin = std::min(hmin, h); hmax = std::max(hmax, h); kmin = std::min(kmin, k); kmax = std::max(kmax, k); }
}
int Mesh::FindPoints(DenseMatrix& pm, Array<int>& ids, Array<IntegrationPoint>& ips, bool warn, InverseElementTransformation*)
{
   const int n = pm.Width(); if (!n) { return 0; } MFEM_VERIFY(pm.Height() == spaceDim, "Invalid points matrix"); ids.SetSize(n); ips.SetSize(n); ids = -1; int found = 0; std::vector<std::array<double, 3>> c(GetNE()); Vector x; for (int e = 0; e < GetNE(); e++) { GetElementCenter(e, x); c[e] = { 0, 0, 0 }; for (int d = 0; d < spaceDim; d++) { c[e][d] = x(d); } }
   std::vector<int> ord(GetNE()); Vector pt(spaceDim);
   for (int k = 0; k < n; k++) {
      for (int d = 0; d < spaceDim; d++) { pt(d) = pm(d, k); }
      std::iota(ord.begin(), ord.end(), 0); std::vector<double> dist(GetNE()); for (int e = 0; e < GetNE(); e++) { double s = 0; for (int d = 0; d < spaceDim; d++) { s += (c[e][d] - pt(d)) * (c[e][d] - pt(d)); } dist[e] = s; }
      std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return dist[a] < dist[b]; });
      for (int e : ord) { IsoparametricTransformation T; fillElemTr(e, T); if (T.TransformBack(pt, ips[k]) == 0) { ids[k] = e; found++; break; } }
   }
   if (warn && found < n) { MFEM_WARNING((n - found) << " points were not found"); }
   return found;
}

// ------------------------------------------------------------------ nodes
const FiniteElementSpace* Mesh::GetNodalFESpace() const { return Nodes ? Nodes->FESpace() : nullptr; }
void Mesh::GetNodes(Vector& v) const { if (Nodes) { v = *Nodes; } else { GetVertices(v); } }
void Mesh::GetNodes(GridFunction& g) const
{
   if (Nodes && Nodes->FESpace() == g.FESpace()) { g = *Nodes; return; }
   auto* f = g.FESpace(); Array<int> d; Vector x; for (int e = 0; e < GetNE(); e++) { IsoparametricTransformation T; fillElemTr(e, T); f->GetElementDofs(e, d); const auto* fe = f->GetFE(e); for (int k = 0; k < d.Size(); k++) { T.Transform(fe->GetNodes()[k], x); for (int c = 0; c < f->GetVDim(); c++) { g(f->DofToVDof(d[k], c)) = c < spaceDim ? x(c) : 0.0; } } }
}
void Mesh::SetNodalFESpace(FiniteElementSpace* f) { auto* g = new GridFunction(f); GetNodes(*g); NewNodes(*g, true); }
void Mesh::SetNodalGridFunction(GridFunction* g, bool own) { GetNodes(*g); NewNodes(*g, own); }
void Mesh::EnsureNodes() { if (!Nodes) { SetCurvature(1, false, spaceDim, Ordering::byVDIM); } }
void Mesh::SetCurvature(int order, bool discont, int sd, int ordering)
{
   if (order <= 0) { deleteNodes(); return; } if (sd < 0) { sd = spaceDim; }
   FiniteElementCollection* fec = discont ? (FiniteElementCollection*)new L2_FECollection(order, Dim, BasisType::GaussLobatto) : new H1_FECollection(order, Dim); auto* fes = new FiniteElementSpace(this, fec, sd, ordering); auto* g = new GridFunction(fes); static_cast<Vector&>(*g) = 0.0; GetNodes(*g); g->MakeOwner(fec); NewNodes(*g, true); spaceDim = sd;
}
void Mesh::Transform(void (*f)(const Vector&, Vector&))
{
   if (!Nodes) { Vector o(spaceDim); for (auto& v : vertices) { Vector in(v(), spaceDim); Vector c(in); f(c, o); for (int d = 0; d < spaceDim; d++) { v(d) = o(d); } } return; }
   auto* fs = Nodes->FESpace(); Vector a(spaceDim), b(spaceDim); for (int i = 0; i < fs->GetNDofs(); i++) { for (int d = 0; d < spaceDim; d++) { a(d) = (*Nodes)(fs->DofToVDof(i, d)); } f(a, b); for (int d = 0; d < spaceDim; d++) { (*Nodes)(fs->DofToVDof(i, d)) = b(d); } }
}
void Mesh::Print(std::ostream& os, const std::string&) const
{
   os << "MFEM mesh v1.0\n\n#\n# MFEM Geometry Types (see fem/geom.hpp):\n#\n# POINT       = 0\n# SEGMENT     = 1\n# TRIANGLE    = 2\n# SQUARE      = 3\n# TETRAHEDRON = 4\n# CUBE        = 5\n# PRISM       = 6\n# PYRAMID     = 7\n#\n\ndimension\n" << Dim << "\n\nelements\n" << GetNE() << '\n';
   auto pe = [&](const Element& e) { os << e.GetAttribute() << ' ' << int(e.GetGeometryType()); for (int k = 0; k < e.GetNVertices(); k++) { os << ' ' << e.GetVertices()[k]; } os << '\n'; };
   for (auto& e : elements) { pe(*e); } os << "\nboundary\n" << GetNBE() << '\n'; for (auto& e : boundary) { pe(*e); }
   if (Nodes) { os << "\nvertices\n" << GetNV() << "\n\nnodes\n"; Nodes->Save(os); return; }
   os << "\nvertices\n" << GetNV() << '\n' << spaceDim << '\n'; for (auto& v : vertices) { os << v()[0]; for (int d = 1; d < spaceDim; d++) { os << ' ' << v()[d]; } os << '\n'; } os.flush();
}
std::ostream& operator<<(std::ostream& os, const Mesh& m) { m.Print(os); return os; }

// ------------------------------------------------------------------ refinement
void Mesh::UniformRefinement(int) { refineOnce(); }
void Mesh::refineOnce()
{
   // every child is given by the parent-local weights of its vertices
   std::map<std::vector<int>, int> mid; std::vector<Vertex> nv = vertices; const bool cv = Nodes != nullptr; IsoparametricTransformation T;
   auto point = [&](const Element& e, std::vector<int> loc) { // midpoint of the listed local vertices
      std::vector<int> key; for (int l : loc) { key.push_back(e.GetVertices()[l]); } std::sort(key.begin(), key.end()); if (key.size() == 1) { return key[0]; }
      if (key.size() == 8) { key.push_back(-1); }
      auto it = mid.find(key); if (it != mid.end()) { return it->second; } double c[3] = { 0, 0, 0 }; for (int l : loc) for (int d = 0; d < 3; d++) { c[d] += vertices[e.GetVertices()[l]]()[d] / loc.size(); } nv.emplace_back(c, 3); return mid[key] = (int)nv.size() - 1;
   };
   typedef std::vector<std::vector<int>> Kid; // per child vertex: list of parent-local vertices averaged
   auto kids = [](Geometry::Type g) -> std::vector<Kid> {
      auto E = [&](int k) { auto e = edgeT(g)[k]; return std::vector<int>{ e[0], e[1] }; };
      switch (g) {
         case Geometry::POINT: return { { { 0 } } };
         case Geometry::SEGMENT: return { { { 0 }, { 0, 1 } }, { { 0, 1 }, { 1 } } };
         case Geometry::TRIANGLE: return { { { 0 }, E(0), E(2) }, { E(1), E(2), E(0) }, { E(0), { 1 }, E(1) }, { E(2), E(1), { 2 } } };
         case Geometry::SQUARE: { std::vector<int> c{ 0, 1, 2, 3 }; return { { { 0 }, E(0), c, E(3) }, { E(0), { 1 }, E(1), c }, { c, E(1), { 2 }, E(2) }, { E(3), c, E(2), { 3 } } }; }
         case Geometry::TETRAHEDRON: return { { { 0 }, E(0), E(1), E(2) }, { E(0), { 1 }, E(3), E(4) }, { E(1), E(3), { 2 }, E(5) }, { E(2), E(4), E(5), { 3 } }, { E(0), E(5), E(1), E(2) }, { E(0), E(5), E(2), E(4) }, { E(0), E(5), E(4), E(3) }, { E(0), E(5), E(3), E(1) } };
         default: {
            std::vector<int> c{ 0, 1, 2, 3, 4, 5, 6, 7 }; auto F = [&](int k) { return std::vector<int>(hexFt[k], hexFt[k] + 4); };
            return { { { 0 }, E(0), F(0), E(3), E(8), F(1), c, F(4) }, { E(0), { 1 }, E(1), F(0), F(1), E(9), F(2), c }, { F(0), E(1), { 2 }, E(2), c, F(2), E(10), F(3) }, { E(3), F(0), E(2), { 3 }, F(4), c, F(3), E(11) },
               { E(8), F(1), c, F(4), { 4 }, E(4), F(5), E(7) }, { F(1), E(9), F(2), c, E(4), { 5 }, E(5), F(5) }, { c, F(2), E(10), F(3), F(5), E(5), { 6 }, E(6) }, { F(4), c, F(3), E(11), E(7), F(5), E(6), { 7 } } };
         }
      }
   };
   std::vector<std::unique_ptr<Element>> ne, nb; std::vector<std::pair<int, Kid>> origin; std::vector<std::unique_ptr<Element>> tail; std::vector<std::pair<int, Kid>> tailO;
   for (int e = 0; e < GetNE(); e++) {
      auto K = kids(GetElementGeometry(e)); bool first = true;
      for (auto& k : K) { std::vector<int> v; for (auto& l : k) { v.push_back(point(*elements[e], l)); } auto n = std::make_unique<Element>(GetElementGeometry(e), v.data(), GetAttribute(e)); if (Dim == 1 && !first) { tail.push_back(std::move(n)); tailO.emplace_back(e, k); } else { ne.push_back(std::move(n)); origin.emplace_back(e, k); } first = false; }
   }
   for (auto& t : tail) { ne.push_back(std::move(t)); } for (auto& o : tailO) { origin.push_back(o); }
   for (auto& b : boundary) { for (auto& k : kids(b->GetGeometryType())) { std::vector<int> v; for (auto& l : k) { v.push_back(point(*b, l)); } nb.push_back(std::make_unique<Element>(b->GetGeometryType(), v.data(), b->GetAttribute())); } }
   GridFunction* old = Nodes; bool own = own_nodes; std::vector<std::unique_ptr<IsoparametricTransformation>> parents; int ord = 1; bool disc = false;
   if (cv) { ord = nodeOrder(); disc = old->FESpace()->IsDGSpace(); for (int e = 0; e < GetNE(); e++) { parents.push_back(std::make_unique<IsoparametricTransformation>()); fillElemTr(e, *parents.back()); } }
   Nodes = nullptr; own_nodes = false; vertices = nv; elements = std::move(ne); boundary = std::move(nb); buildTopology(false);
   if (cv) {
      SetCurvature(ord, disc, spaceDim, Ordering::byVDIM); auto* f = Nodes->FESpace(); Array<int> d; Vector x;
      for (int e = 0; e < GetNE(); e++) {
         const auto g = GetElementGeometry(e); const auto* lin = shim_geometry_fe(g, 1); const int dim = Geometry::Dimension[g]; Vector sh(lin->GetDof()); f->GetElementDofs(e, d);
         for (int k = 0; k < d.Size(); k++) {
            lin->CalcShape(f->GetFE(e)->GetNodes()[k], sh); double r[3] = { 0, 0, 0 };
            for (int q = 0; q < sh.Size(); q++) { const auto& l = origin[e].second[q]; for (int p : l) { double c[3] = { 0, 0, 0 }; lin->GetNodes()[p].Get(c, dim); for (int a = 0; a < dim; a++) { r[a] += sh(q) * c[a] / l.size(); } } }
            IntegrationPoint ip; ip.Init(0); ip.Set3(r[0], r[1], r[2]); parents[origin[e].first]->Transform(ip, x); for (int c = 0; c < spaceDim; c++) { (*Nodes)(f->DofToVDof(d[k], c)) = x(c); }
         }
      }
      if (own) { delete old; }
   }
}
void Mesh::GeneralRefinement(const Array<int>& a, int, int) { MFEM_VERIFY(a.Size() == GetNE(), "non-uniform refinement is not provided by the stand-in"); refineOnce(); }

// ------------------------------------------------------------------ sub-meshes
struct SubMeshBuild
{
   static void domain(const Mesh& p, const Array<int>& attrs, Mesh& s, Array<int>& eids, Array<int>& vids, Array<int>& fids)
   {
      s.Dim = p.Dim; s.spaceDim = p.spaceDim; std::map<int, int> v; eids.SetSize(0); vids.SetSize(0);
      for (int e = 0; e < p.GetNE(); e++) {
         if (attrs.Find(p.GetAttribute(e)) < 0) { continue; }
         eids.Append(e); auto n = std::make_unique<Element>(*p.elements[e]); for (int k = 0; k < n->GetNVertices(); k++) { int& x = n->GetVertices()[k]; auto it = v.find(x); if (it == v.end()) { it = v.emplace(x, s.GetNV()).first; vids.Append(x); s.vertices.push_back(p.vertices[x]); } x = it->second; } s.elements.push_back(std::move(n));
      }
      s.buildTopology(false); fids = SubMeshUtils::BuildFaceMap(p, s, eids); const Array<int> f2b = p.GetFaceToBdrElMap(); const int mx = p.bdr_attributes.Size() ? p.bdr_attributes.Max() : 0;
      for (int f = 0; f < s.GetNumFaces(); f++) {
         if (s.faces_info[f].Elem1No < 0 || s.faces_info[f].Elem2No >= 0) { continue; } int pb = f2b[fids[f]]; if (pb < 0 && p.faces_info[fids[f]].Elem2No < 0 && p.faces_info[fids[f]].Elem2Inf >= 0) { pb = -1; }
         s.boundary.emplace_back(new Element(s.face_geom[f], s.faces[f].data(), pb >= 0 ? p.GetBdrAttribute(pb) : mx + 1));
      }
      s.buildTopology(false);
      if (p.Nodes) {
         const auto* pf = p.Nodes->FESpace(); auto* fec = FiniteElementCollection::New(pf->FEColl()->Name()); auto* fes = new FiniteElementSpace(&s, fec, pf->GetVDim(), pf->GetOrdering()); auto* g = new GridFunction(fes); g->MakeOwner(fec); Array<int> a, b;
         for (int e = 0; e < s.GetNE(); e++) { fes->GetElementVDofs(e, a); pf->GetElementVDofs(eids[e], b); for (int k = 0; k < a.Size(); k++) { (*g)(a[k]) = (*p.Nodes)(b[k]); } } s.NewNodes(*g, true);
      }
   }
};
void shim_submesh_domain(const Mesh& p, const Array<int>& attrs, Mesh& s, Array<int>& e, Array<int>& v, Array<int>& f) { SubMeshBuild::domain(p, attrs, s, e, v, f); }
SubMesh SubMesh::CreateFromDomain(const Mesh& p, const Array<int>& attrs) { SubMesh s; s.parent_ = &p; s.attributes_ = attrs; SubMeshBuild::domain(p, attrs, s, s.parent_element_ids_, s.parent_vertex_ids_, s.parent_face_ids_); return s; }
namespace SubMeshUtils {
bool ElementHasAttribute(const Element& el, const Array<int>& a) { return a.Find(el.GetAttribute()) >= 0; }
Array<int> BuildFaceMap(const Mesh& pm, const Mesh& sm, const Array<int>& ids)
{
   Array<int> r(sm.GetNumFaces()); r = -1; Array<int> sf, pf, o; for (int e = 0; e < sm.GetNE(); e++) { sm.GetElementFaces(e, sf, o); pm.GetElementFaces(ids[e], pf, o); MFEM_VERIFY(sf.Size() == pf.Size(), "internal error"); for (int k = 0; k < sf.Size(); k++) { r[sf[k]] = pf[k]; } } return r;
}
void BuildVdofToVdofMap(const FiniteElementSpace& s, const FiniteElementSpace& p, const SubMesh::From, const Array<int>& ids, Array<int>& map)
{
   map.SetSize(s.GetVSize()); Array<int> a, b; for (int e = 0; e < s.GetMesh()->GetNE(); e++) { s.GetElementVDofs(e, a); p.GetElementVDofs(ids[e], b); MFEM_VERIFY(a.Size() == b.Size(), "size mismatch"); for (int k = 0; k < a.Size(); k++) { map[a[k]] = b[k]; } }
}
}
static const Array<int>* parentIds(const Mesh* m, const Mesh*& parent) { if (auto* s = dynamic_cast<const SubMesh*>(m)) { parent = s->GetParent(); return &s->GetParentElementIDMap(); } if (auto* s = dynamic_cast<const ParSubMesh*>(m)) { parent = s->GetParent(); return &s->GetParentElementIDMap(); } return nullptr; }
TransferMap::TransferMap(const GridFunction& src, const GridFunction& dst)
{
   const Mesh *ps = nullptr, *pd = nullptr; auto* is = parentIds(src.FESpace()->GetMesh(), ps); auto* id = parentIds(dst.FESpace()->GetMesh(), pd);
   MFEM_VERIFY(!(is && id), "transfer between two SubMeshes"); if (is) { sub_to_parent_ = true; SubMeshUtils::BuildVdofToVdofMap(*src.FESpace(), *dst.FESpace(), SubMesh::From::Domain, *is, map_); }
   else if (id) { sub_to_parent_ = false; SubMeshUtils::BuildVdofToVdofMap(*dst.FESpace(), *src.FESpace(), SubMesh::From::Domain, *id, map_); }
   else { MFEM_ABORT("Trying to do a transfer between GridFunctions but none of them is defined on a SubMesh"); }
}
void TransferMap::Transfer(const GridFunction& src, GridFunction& dst) const { for (int i = 0; i < map_.Size(); i++) { if (sub_to_parent_) { dst(map_[i]) = src(i); } else { dst(i) = src(map_[i]); } } }
void SubMesh::Transfer(const GridFunction& s, GridFunction& d) { CreateTransferMap(s, d).Transfer(s, d); }
TransferMap SubMesh::CreateTransferMap(const GridFunction& s, const GridFunction& d) { return TransferMap(s, d); }
} // namespace mfem
