// Distributed meshes, spaces and forms of the MFEM stand-in. Every rank keeps the serial mesh it was built from, so that
// face neighbours are known locally; only field data travels between ranks.
#include "mfem.hpp"
#include <numeric>
#include <cstring>

namespace mfem {
const FiniteElement* shim_geometry_fe(Geometry::Type g, int k);
void shim_submesh_domain(const Mesh& p, const Array<int>& attrs, Mesh& s, Array<int>& e, Array<int>& v, Array<int>& f);

ParMesh::ParMesh(MPI_Comm comm, Mesh& m, const int* p, int method) : MyComm(comm)
{
   MPI_Comm_size(comm, &NRanks); MPI_Comm_rank(comm, &MyRank); int* own = nullptr; if (!p) { p = own = m.GeneratePartitioning(NRanks, method); } buildLocal(m, p); delete[] own;
}
void ParMesh::buildLocal(const Mesh& m, const int* p)
{
   global = std::make_shared<Mesh>(m); part.assign(p, p + m.GetNE()); Dim = m.Dim; spaceDim = m.spaceDim; global_to_local.assign(m.GetNE(), -1); local_to_global.clear();
   for (int e = 0; e < m.GetNE(); e++) { MFEM_VERIFY(part[e] >= 0 && part[e] < NRanks, "element assigned to a rank that does not exist"); if (part[e] == MyRank) { global_to_local[e] = (int)local_to_global.size(); local_to_global.push_back(e); } }
   std::vector<int> vmap(m.GetNV(), -1); for (int e : local_to_global) for (int k = 0; k < m.elements[e]->GetNVertices(); k++) { vmap[m.elements[e]->GetVertices()[k]] = 0; }
   for (int v = 0; v < m.GetNV(); v++) { if (vmap[v] == 0) { vmap[v] = GetNV(); vertices.push_back(m.vertices[v]); } }
   for (int e : local_to_global) { elements.emplace_back(new Element(*m.elements[e])); for (int k = 0; k < elements.back()->GetNVertices(); k++) { int& x = elements.back()->GetVertices()[k]; x = vmap[x]; } }
   for (int b = 0; b < m.GetNBE(); b++) {
      const auto& fi = m.faces_info[m.be_to_face[b]]; int face, ori; m.GetBdrElementFace(b, &face, &ori); // in 3D a boundary element belongs to the side its orientation selects
      if (part[Dim == 3 && ori % 2 && fi.Elem2No >= 0 ? fi.Elem2No : fi.Elem1No] != MyRank) { continue; }
      boundary.emplace_back(new Element(*m.boundary[b])); for (int k = 0; k < boundary.back()->GetNVertices(); k++) { int& x = boundary.back()->GetVertices()[k]; x = vmap[x]; }
   }
   buildTopology(false);
   // shared faces, ordered by neighbour rank and global face number
   std::map<int, std::vector<int>> nbrOf; // rank -> global element numbers
   std::vector<SharedFace> all;
   std::map<int, int> gface_to_local; Array<int> lf, gf, o;
   for (int le = 0; le < GetNE(); le++) { GetElementFaces(le, lf, o); m.GetElementFaces(local_to_global[le], gf, o); for (int k = 0; k < lf.Size(); k++) { gface_to_local[gf[k]] = lf[k]; } }
   for (int f = 0; f < m.GetNumFaces(); f++) {
      const auto& fi = m.faces_info[f]; if (fi.Elem1No < 0 || fi.Elem2No < 0 || part[fi.Elem1No] == part[fi.Elem2No]) { continue; }
      const bool first = part[fi.Elem1No] == MyRank; if (!first && part[fi.Elem2No] != MyRank) { continue; }
      SharedFace s; s.global_face = f; s.local_face = gface_to_local.at(f); s.nbr_global_elem = first ? fi.Elem2No : fi.Elem1No; s.nbr_rank = part[s.nbr_global_elem]; s.nbr_index = -1; all.push_back(s); nbrOf[s.nbr_rank].push_back(s.nbr_global_elem);
   }
   std::stable_sort(all.begin(), all.end(), [](const SharedFace& a, const SharedFace& b) { return a.nbr_rank < b.nbr_rank; }); shared = all; nbr_elems.clear();
   std::map<int, int> idx; for (auto& kv : nbrOf) { std::sort(kv.second.begin(), kv.second.end()); kv.second.erase(std::unique(kv.second.begin(), kv.second.end()), kv.second.end()); for (int g : kv.second) { idx[g] = (int)nbr_elems.size(); nbr_elems.push_back(g); } }
   for (auto& s : shared) { s.nbr_index = idx.at(s.nbr_global_elem); auto& fi = faces_info[s.local_face]; const auto& g = m.faces_info[s.global_face]; fi.Elem2No = -1 - s.nbr_index; fi.Elem2Inf = part[g.Elem1No] == MyRank ? g.Elem2Inf : g.Elem1Inf; }
   if (m.Nodes) {
      const auto* pf = m.Nodes->FESpace(); auto* fec = FiniteElementCollection::New(pf->FEColl()->Name()); auto* fes = new FiniteElementSpace(this, fec, pf->GetVDim(), pf->GetOrdering()); auto* g = new GridFunction(fes); g->MakeOwner(fec); Array<int> a, b;
      for (int e = 0; e < GetNE(); e++) { fes->GetElementVDofs(e, a); pf->GetElementVDofs(local_to_global[e], b); for (int k = 0; k < a.Size(); k++) { (*g)(a[k]) = (*m.Nodes)(b[k]); } } NewNodes(*g, true);
   }
   attributes = m.attributes; bdr_attributes = m.bdr_attributes;
}
void ParMesh::shimReduceAttributes()
{
   if (NRanks <= 1) { return; }
   for (auto* a : { &attributes, &bdr_attributes }) {
      int mine = a->Size(), mx = 0; MPI_Allreduce(&mine, &mx, 1, MPI_INT, MPI_MAX, MyComm); if (!mx) { continue; } std::vector<int> s(mx, -1), r(std::size_t(mx) * NRanks); for (int i = 0; i < mine; i++) { s[i] = (*a)[i]; }
      MPI_Allgather(s.data(), mx, MPI_INT, r.data(), mx, MPI_INT, MyComm); std::set<int> u; for (int x : r) { if (x != -1) { u.insert(x); } } a->SetSize(0); for (int x : u) { a->Append(x); }
   }
}
ParMesh::ParMesh(const ParMesh& o, bool cn) : Mesh(static_cast<const Mesh&>(o), cn), MyComm(o.MyComm), NRanks(o.NRanks), MyRank(o.MyRank), global(o.global), part(o.part), local_to_global(o.local_to_global), global_to_local(o.global_to_local), shared(o.shared), nbr_elems(o.nbr_elems) {}
ParMesh::ParMesh(ParMesh&& o) : Mesh(std::move(o)), MyComm(o.MyComm), NRanks(o.NRanks), MyRank(o.MyRank), global(std::move(o.global)), part(std::move(o.part)), local_to_global(std::move(o.local_to_global)), global_to_local(std::move(o.global_to_local)), shared(std::move(o.shared)), nbr_elems(std::move(o.nbr_elems)) {}
ParMesh& ParMesh::operator=(ParMesh&& o)
{
   Mesh::operator=(std::move(o)); MyComm = o.MyComm; NRanks = o.NRanks; MyRank = o.MyRank; global = std::move(o.global); part = std::move(o.part); local_to_global = std::move(o.local_to_global); global_to_local = std::move(o.global_to_local); shared = std::move(o.shared); nbr_elems = std::move(o.nbr_elems); return *this;
}
long long ParMesh::ReduceInt(int v) const { if (NRanks <= 1) { return v; } long long a = v, r = 0; MPI_Allreduce(&a, &r, 1, MPI_LONG_LONG, MPI_SUM, MyComm); return r; }
FaceElementTransformations* ParMesh::GetSharedFaceTransformations(int i, bool)
{
   SHIM_CHECK(i, (int)shared.size(), "shared face") const auto& s = shared[i]; const auto& fi = faces_info[s.local_face]; auto& F = FaceElemTr;
   Mesh::GetFaceElementTransformations(s.local_face, F, Transformation, Transformation2, 21); F.Elem1No = fi.Elem1No;
   // neighbour geometry and local face, from the global picture
   global->fillElemTr(s.nbr_global_elem, nbrTransformation); F.Elem2 = &nbrTransformation; F.Elem2No = GetNE() + s.nbr_index; nbrTransformation.ElementNo = F.Elem2No;
   const auto& g = global->faces_info[s.global_face]; const bool first = g.Elem2No == s.nbr_global_elem; const int inf = first ? g.Elem2Inf : g.Elem1Inf;
   // global vertex ids of the local face in local Elem1 order
   const Element& le = *elements[fi.Elem1No]; const Element& ge = *global->elements[local_to_global[fi.Elem1No]]; std::vector<int> fv; for (int v : faces[s.local_face]) { for (int k = 0; k < le.GetNVertices(); k++) { if (le.GetVertices()[k] == v) { fv.push_back(ge.GetVertices()[k]); break; } } }
   const Element& ne = *global->elements[s.nbr_global_elem]; GetLocalFaceTransformation(ne.GetGeometryType(), inf / 64, { ne.GetVertices(), ne.GetVertices() + ne.GetNVertices() }, fv, F.Loc2.Transf);
   F.SetConfigurationMask(31); F.ElementType = ElementTransformation::FACE; return &F;
}
FaceElementTransformations* ParMesh::GetFaceElementTransformations(int f, int mask)
{
   SHIM_CHECK(f, GetNumFaces(), "face") if (FaceIsSharedShim(f)) { for (std::size_t i = 0; i < shared.size(); i++) { if (shared[i].local_face == f) { return GetSharedFaceTransformations((int)i, mask & 2); } } }
   return Mesh::GetFaceElementTransformations(f, mask);
}
int ParMesh::FindPoints(DenseMatrix& pm, Array<int>& ids, Array<IntegrationPoint>& ips, bool warn, InverseElementTransformation* t)
{
   if (NRanks <= 1) { return Mesh::FindPoints(pm, ids, ips, warn, t); }
   Mesh::FindPoints(pm, ids, ips, false, t); const int n = pm.Width(); if (!n) { return 0; } std::vector<int> s(n), r(n); for (int i = 0; i < n; i++) { s[i] = ids[i] < 0 ? NRanks : MyRank; }
   MPI_Allreduce(s.data(), r.data(), n, MPI_INT, MPI_MIN, MyComm); int found = 0; for (int i = 0; i < n; i++) { if (r[i] == NRanks) { ids[i] = -1; } else { found++; if (r[i] != MyRank) { ids[i] = -2; } } }
   if (warn && found != n && MyRank == 0) { MFEM_WARNING((n - found) << " points were not found"); } return found;
}
void ParMesh::GetCharacteristics(double& a, double& b, double& c, double& d)
{
   Mesh::GetCharacteristics(a, b, c, d); if (NRanks <= 1) { return; } double mn[2] = { a, c }, mx[2] = { b, d }, r[2]; MPI_Allreduce(mn, r, 2, MPI_DOUBLE, MPI_MIN, MyComm); a = r[0]; c = r[1]; MPI_Allreduce(mx, r, 2, MPI_DOUBLE, MPI_MAX, MyComm); b = r[0]; d = r[1];
}
long long ParFiniteElementSpace::GlobalTrueVSize() const { return pmesh->ReduceInt(GetVSize()); }
const FiniteElement* ParFiniteElementSpace::GetFaceNbrFE(int i) const { return fec->FiniteElementForGeometry(pmesh->global->GetElementGeometry(pmesh->nbr_elems.at(i))); }
void ParFiniteElementSpace::ExchangeFaceNbrData()
{
   if (exchanged) { return; } exchanged = true; nbr_offset.clear(); int n = 0; for (std::size_t i = 0; i < pmesh->nbr_elems.size(); i++) { nbr_offset.push_back(n); n += GetFaceNbrFE((int)i)->GetDof() * vdim; } num_face_nbr_dofs = n;
}
void ParFiniteElementSpace::GetFaceNbrElementVDofs(int i, Array<int>& v) const
{
   if (!exchanged) { shim_memory_violation("GetFaceNbrElementVDofs before ExchangeFaceNbrData", i, 0); } SHIM_CHECK(i, (int)nbr_offset.size(), "face neighbour element") const int n = GetFaceNbrFE(i)->GetDof() * vdim; v.SetSize(n); for (int k = 0; k < n; k++) { v[k] = nbr_offset[i] + k; }
}
ParGridFunction::ParGridFunction(ParMesh* pm, std::istream& in)
{
   FiniteElementSpace tmp; auto* fc = tmp.Load(pm, in); pfes = new ParFiniteElementSpace(pm, fc, tmp.GetVDim(), tmp.GetOrdering()); fes = pfes; MakeOwner(fc); in >> std::ws; Vector::Load(in, pfes->GetVSize()); MFEM_VERIFY(!in.fail(), "ParGridFunction: truncated input");
}
ParGridFunction::ParGridFunction(ParMesh* pm, const GridFunction* gf, const int*)
{
   auto* f = gf->FESpace(); auto* fc = FiniteElementCollection::New(f->FEColl()->Name()); pfes = new ParFiniteElementSpace(pm, fc, f->GetVDim(), f->GetOrdering()); fes = pfes; MakeOwner(fc); SetSize(pfes->GetVSize()); Array<int> a, b;
   for (int e = 0; e < pm->GetNE(); e++) { pfes->GetElementVDofs(e, a); f->GetElementVDofs((int)pm->GetGlobalElementNum(e), b); for (int k = 0; k < a.Size(); k++) { (*this)(a[k]) = (*gf)(b[k]); } }
}
void ParGridFunction::ExchangeFaceNbrData()
{
   pfes->ExchangeFaceNbrData(); auto& pm = *pfes->pmesh; face_nbr_data.SetSize(pfes->GetFaceNbrVSize()); if (pm.NRanks <= 1) { return; }
   // every rank publishes all its element values in local element order
   Array<int> d; std::vector<double> mine; for (int e = 0; e < pm.GetNE(); e++) { pfes->GetElementVDofs(e, d); for (int x : d) { mine.push_back((*this)(x)); } }
   std::vector<std::size_t> bytes(pm.NRanks), off(pm.NRanks + 1, 0);
   auto ndof = [&](int ge) { return std::size_t(pfes->FEColl()->FiniteElementForGeometry(pm.global->GetElementGeometry(ge))->GetDof() * pfes->GetVDim()); };
   std::vector<std::size_t> start(pm.part.size()), len(pm.NRanks, 0); for (std::size_t g = 0; g < pm.part.size(); g++) { start[g] = len[pm.part[g]]; len[pm.part[g]] += ndof((int)g); }
   for (int r = 0; r < pm.NRanks; r++) { off[r + 1] = off[r] + len[r]; } std::vector<double> all(off.back() + 1);
   if (len[pm.MyRank] != mine.size()) { shim_memory_violation("face neighbour exchange size", (int)mine.size(), (int)len[pm.MyRank]); }
   shim_mpi_allgather_bytes(mine.data(), mine.size() * sizeof(double), all.data(), bytes.data());
   for (std::size_t i = 0; i < pm.nbr_elems.size(); i++) { const int g = pm.nbr_elems[i]; const std::size_t n = ndof(g), o = off[pm.part[g]] + start[g]; for (std::size_t k = 0; k < n; k++) { face_nbr_data(pfes->nbr_offset[i] + (int)k) = all[o + k]; } }
}
double ParGridFunction::ComputeL2Error(Coefficient& c, const IntegrationRule* irs[], const Array<int>* a) const { double e = GridFunction::ComputeL2Error(c, irs, a); e *= e; double r = e; if (pfes->GetNRanks() > 1) { MPI_Allreduce(&e, &r, 1, MPI_DOUBLE, MPI_SUM, pfes->GetComm()); } return std::sqrt(r); }
int ParBilinearForm::matWidth() const { if (intface.empty()) { return fes->GetVSize(); } return fes->GetVSize() + pfes->GetFaceNbrVSize(); }
void ParBilinearForm::Assemble(int skip) { if (!intface.empty()) { pfes->ExchangeFaceNbrData(); } BilinearForm::Assemble(skip); }
void ParBilinearForm::assembleShared(int skip)
{
   auto* pm = pfes->GetParMesh(); Array<int> v1, v2, all; const Array<int> f2b = pm->GetFaceToBdrElMap();
   for (int i = 0; i < pm->GetNSharedFaces(); i++) {
      const int lf = pm->GetSharedFace(i);
      for (auto& t : intface) {
         if (t.marker) {
            // a face carrying a marked boundary attribute, possibly owned by the neighbour, is left out on both ranks
            int attr = -1; const auto& g = *pm->global; const int gf = pm->shared[i].global_face; if (f2b[lf] >= 0) { attr = pm->GetBdrAttribute(f2b[lf]); } else { for (int b = 0; b < g.GetNBE(); b++) { if (g.GetBdrElementFaceIndex(b) == gf) { attr = g.GetBdrAttribute(b); } } }
            if (attr > 0 && attr - 1 < t.marker->Size() && (*t.marker)[attr - 1]) { continue; }
         }
         auto* T = pm->GetSharedFaceTransformations(i); const int nb = T->Elem2No - pm->GetNE(); pfes->GetElementVDofs(T->Elem1No, v1); pfes->GetFaceNbrElementVDofs(nb, v2); all = v1; for (int x : v2) { all.Append(x + fes->GetVSize()); }
         t.i->AssembleFaceMatrix(*pfes->GetFE(T->Elem1No), *pfes->GetFaceNbrFE(nb), *T, elemmat); DenseMatrix top(v1.Size(), all.Size()); for (int r = 0; r < v1.Size(); r++) for (int c = 0; c < all.Size(); c++) { top(r, c) = elemmat(r, c); } mat->AddSubMatrix(v1, all, top, skip);
      }
   }
}
ParSubMesh ParSubMesh::CreateFromDomain(const ParMesh& p, const Array<int>& attrs)
{
   ParSubMesh s; s.pparent_ = &p; s.MyComm = p.MyComm; s.NRanks = p.NRanks; s.MyRank = p.MyRank; shim_submesh_domain(p, attrs, s, s.parent_element_ids_, s.parent_vertex_ids_, s.parent_face_ids_);
   // faces shared with a sub-mesh element of another rank are not boundary of the sub-mesh
   if (p.NRanks > 1 && p.global) {
      std::set<int> drop; for (auto& sf : p.shared) { if (attrs.Find(p.global->GetAttribute(sf.nbr_global_elem)) < 0) { continue; } for (int f = 0; f < s.GetNumFaces(); f++) { if (s.parent_face_ids_[f] == sf.local_face) { drop.insert(f); } } }
      std::vector<std::unique_ptr<Element>> keep; for (int b = 0; b < s.GetNBE(); b++) { if (!drop.count(s.be_to_face[b])) { keep.push_back(std::move(s.boundary[b])); } } s.boundary = std::move(keep); s.buildTopology(false);
      std::vector<int> sub; s.global_to_local.clear(); std::vector<int> gsub(p.part.size(), -1), spart; for (std::size_t g = 0; g < p.part.size(); g++) { if (attrs.Find(p.global->GetAttribute((int)g)) >= 0) { gsub[g] = (int)spart.size(); spart.push_back(p.part[g]); } }
      Array<int> a, b, c; auto gm = std::make_shared<Mesh>(); shim_submesh_domain(*p.global, attrs, *gm, a, b, c); s.global = gm; s.part = spart; s.global_to_local.assign(spart.size(), -1); for (int e = 0; e < s.GetNE(); e++) { const int g = gsub[p.local_to_global[s.parent_element_ids_[e]]]; s.local_to_global.push_back(g); s.global_to_local[g] = e; }
      std::map<int, std::vector<int>> nbrOf; Array<int> lf, gf, o; std::map<int, int> g2l; for (int e = 0; e < s.GetNE(); e++) { s.GetElementFaces(e, lf, o); gm->GetElementFaces(s.local_to_global[e], gf, o); for (int k = 0; k < lf.Size(); k++) { g2l[gf[k]] = lf[k]; } }
      for (int f = 0; f < gm->GetNumFaces(); f++) { const auto& fi = gm->faces_info[f]; if (fi.Elem1No < 0 || fi.Elem2No < 0 || spart[fi.Elem1No] == spart[fi.Elem2No]) { continue; } const bool first = spart[fi.Elem1No] == s.MyRank; if (!first && spart[fi.Elem2No] != s.MyRank) { continue; } SharedFace q; q.global_face = f; q.local_face = g2l.at(f); q.nbr_global_elem = first ? fi.Elem2No : fi.Elem1No; q.nbr_rank = spart[q.nbr_global_elem]; q.nbr_index = -1; s.shared.push_back(q); nbrOf[q.nbr_rank].push_back(q.nbr_global_elem); }
      std::stable_sort(s.shared.begin(), s.shared.end(), [](const SharedFace& x, const SharedFace& y) { return x.nbr_rank < y.nbr_rank; }); std::map<int, int> idx; for (auto& kv : nbrOf) { std::sort(kv.second.begin(), kv.second.end()); kv.second.erase(std::unique(kv.second.begin(), kv.second.end()), kv.second.end()); for (int g : kv.second) { idx[g] = (int)s.nbr_elems.size(); s.nbr_elems.push_back(g); } }
      for (auto& q : s.shared) { q.nbr_index = idx.at(q.nbr_global_elem); auto& fi = s.faces_info[q.local_face]; const auto& g = gm->faces_info[q.global_face]; fi.Elem2No = -1 - q.nbr_index; fi.Elem2Inf = spart[g.Elem1No] == s.MyRank ? g.Elem2Inf : g.Elem1Inf; }
   }
   s.SetAttributes();
   return s;
}
void ParSubMesh::Transfer(const ParGridFunction& s, ParGridFunction& d) { CreateTransferMap(s, d).Transfer(s, d); }
TransferMap ParSubMesh::CreateTransferMap(const ParGridFunction& s, const ParGridFunction& d) { return TransferMap(s, d); }
} // namespace mfem
