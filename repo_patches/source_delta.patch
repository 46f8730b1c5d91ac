From cf566311251f81b2a7815802da986f0b8a662a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:33 +0000
Subject: [PATCH 01/60] fix: reject not-a-number material parameters

---
 src/components/Material.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/components/Material.cpp b/src/components/Material.cpp
index e1c95db..64dad02 100644
--- a/src/components/Material.cpp
+++ b/src/components/Material.cpp
@@ -4,13 +4,13 @@ namespace maxwell {
 
 void verifyParameters(double epsilon, double mu, double sigma) 
 {
-	if (epsilon < 1.0) {
+	if (!(epsilon >= 1.0)) {
 		throw std::runtime_error("Permittivity under 1.0 not allowed.");
 	}
-	if (mu < 1.0) {
+	if (!(mu >= 1.0)) {
 		throw std::runtime_error("Permeability under 1.0 not allowed.");
 	}
-	if (sigma < 0.0) {
+	if (!(sigma >= 0.0)) {
 		throw std::runtime_error("Conductivity under 0.0 not allowed.");
 	}
 }
-- 
2.43.0


From da46ace5e111246ab21266c819a4e069caf20e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:43 +0000
Subject: [PATCH 02/60] fix: zero the missing components of short vectors and
 reject long ones

---
 src/driver/driver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index c5c2323..bf47ccf 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -345,7 +345,11 @@ mfem::Vector assembleCenterVector(const json& source_center)
 
 mfem::Vector assemble3DVector(const json& input)
 {
+	if (input.size() > 3) {
+		throw std::runtime_error("Vectors with more than three components are not allowed.");
+	}
 	mfem::Vector res(3);
+	res = 0.0;
 	for (int i = 0; i < input.size(); i++) {
 		res[i] = input[i];
 	}
-- 
2.43.0


From 2954961bcedcac7c8b352f37bdd19c352779fe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:42 +0000
Subject: [PATCH 03/60] fix: report missing mandatory entries of a case file

---
 src/driver/driver.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index bf47ccf..97fd24a 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -296,6 +296,14 @@ inline void checkIfThrows(bool condition, const std::string& msg)
 	}
 }
 
+// Reading a missing key from a constant json object is undefined behaviour.
+static void requireEntries(const json& data, const std::string& where, const std::vector<std::string>& keys)
+{
+	for (const auto& key : keys) {
+		checkIfThrows(data.contains(key), "JSON data does not include '" + key + "' in " + where + ".");
+	}
+}
+
 const FieldType assignFieldType(const std::string& field_type)
 {
 	if (field_type == "electric") {
@@ -535,9 +543,16 @@ std::unique_ptr<TotalField> buildDerivGaussDipole(
 Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 {
 	Sources res;
+	requireEntries(case_data, "the case", { "sources" });
 	for (auto s{ 0 }; s < case_data["sources"].size(); s++) {
+		const auto where{ "source " + std::to_string(s) };
+		requireEntries(case_data["sources"][s], where, { "type", "magnitude" });
 		if (case_data["sources"][s]["type"] == "initial") {
+			requireEntries(case_data["sources"][s], where, { "field_type", "polarization" });
+			requireEntries(case_data["sources"][s]["magnitude"], where, { "type" });
 			if (case_data["sources"][s]["magnitude"]["type"] == "gaussian") {
+				requireEntries(case_data["sources"][s], where, { "center", "dimension" });
+				requireEntries(case_data["sources"][s]["magnitude"], where, { "spread" });
 				res.add(buildGaussianInitialField(
 					assignFieldType(case_data["sources"][s]["field_type"]),
 					case_data["sources"][s]["magnitude"]["spread"],
@@ -547,6 +562,7 @@ Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 				);
 			}
 			else if (case_data["sources"][s]["magnitude"]["type"] == "resonant") {
+				requireEntries(case_data["sources"][s]["magnitude"], where, { "modes" });
 				res.add(buildResonantModeInitialField(
 					assignFieldType(case_data["sources"][s]["field_type"]),
 					assemble3DVector(case_data["sources"][s]["polarization"]),
@@ -568,6 +584,8 @@ Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 		}
 		else if (case_data["sources"][s]["type"] == "planewave") {
 			const auto& mag = case_data["sources"][s]["magnitude"];
+			requireEntries(mag, where, { "spread" });
+			requireEntries(case_data["sources"][s], where, { "polarization", "propagation" });
 			double spread = mag["spread"].get<double>();
 
 			// Determine mean: use explicit value if provided, otherwise auto-compute
@@ -613,6 +631,7 @@ Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 		}
 		else if (case_data["sources"][s]["type"] == "dipole") {
 			const auto& mag = case_data["sources"][s]["magnitude"];
+			requireEntries(mag, where, { "length", "spread" });
 			double length = mag["length"].get<double>();
 			double spread = mag["spread"].get<double>();
 
@@ -742,6 +761,8 @@ Probes buildProbes(const json& case_data)
             if (case_data["probes"]["exporter"].contains("name")) {
                 exporter_probe.name = case_data["probes"]["exporter"]["name"];
             } else {
+                requireEntries(case_data, "the case", { "model" });
+                requireEntries(case_data["model"], "'model'", { "filename" });
                 exporter_probe.name = case_data["model"]["filename"];
             }
             exporter_probe.visSteps = calculate_interval(case_data["probes"]["exporter"]);
@@ -752,6 +773,7 @@ Probes buildProbes(const json& case_data)
 
         if (case_data["probes"].contains("point")) {
             for (int p = 0; p < case_data["probes"]["point"].size(); p++) {
+                requireEntries(case_data["probes"]["point"][p], "point probe", { "position" });
                 int interval = calculate_interval(case_data["probes"]["point"][p]);
                 PointProbe point_probe(
                     assembleVector(case_data["probes"]["point"][p]["position"]),
@@ -767,6 +789,7 @@ Probes buildProbes(const json& case_data)
 
         if (case_data["probes"].contains("field")) {
             for (int p = 0; p < case_data["probes"]["field"].size(); p++) {
+                requireEntries(case_data["probes"]["field"][p], "field probe", { "field_type", "polarization", "position" });
                 int interval = calculate_interval(case_data["probes"]["field"][p]);
                 FieldProbe field_probe(
                     assignFieldType(case_data["probes"]["field"][p]["field_type"]),
@@ -815,6 +838,8 @@ Probes buildProbes(const json& case_data)
                 probe.name = case_data["probes"]["domain_snapshot"]["name"];
             }
             else{
+                requireEntries(case_data, "the case", { "model" });
+                requireEntries(case_data["model"], "'model'", { "filename" });
                 probe.name = case_data["model"]["filename"];
             }
             probe.expSteps = calculate_interval(case_data["probes"]["domain_snapshot"]);
@@ -953,8 +978,10 @@ GeomTagToMaterialInfo assembleAttributeToMaterial(const json& case_data, const m
 
 	checkIfThrows(case_data.contains("model"), "JSON data does not include 'model'.");
 	checkIfThrows(case_data["model"].contains("materials"), "JSON data does not include 'materials'.");
+	requireEntries(case_data["model"], "'model'", { "boundaries" });
 
 	for (auto m = 0; m < case_data["model"]["materials"].size(); m++) {
+		requireEntries(case_data["model"]["materials"][m], "material " + std::to_string(m), { "tags" });
 		for (auto t = 0; t < case_data["model"]["materials"][m]["tags"].size(); t++) {
 			double eps{ 1.0 }, mu{ 1.0 }, sigma{ 0.0 };
 			if (case_data["model"]["materials"][m].contains("relative_permittivity")) {
@@ -971,6 +998,7 @@ GeomTagToMaterialInfo assembleAttributeToMaterial(const json& case_data, const m
 	}
 
 	for (auto b = 0; b < case_data["model"]["boundaries"].size(); b++) {
+		requireEntries(case_data["model"]["boundaries"][b], "boundary " + std::to_string(b), { "tags" });
 		for (auto a = 0; a < case_data["model"]["boundaries"][b]["tags"].size(); a++) {
 			if (case_data["model"]["boundaries"][b].contains("material")) {
 				double eps{ 1.0 }, mu{ 1.0 }, sigma{ 0.0 };
@@ -1200,6 +1228,7 @@ Array<int> getTFSFTags(const json& case_data)
         if (case_data["sources"][s].contains("type") &&
             (case_data["sources"][s]["type"] == "planewave" ||
              case_data["sources"][s]["type"] == "dipole")) {
+            requireEntries(case_data["sources"][s], "source " + std::to_string(s), { "tags" });
             for (int t = 0; t < case_data["sources"][s]["tags"].size(); ++t) {
                 res.Append(case_data["sources"][s]["tags"][t]);
             }
@@ -1245,6 +1274,9 @@ BdrCond assignBoundaryType(const std::string& sgbc_bdr_type)
 
 Model buildModel(const json& case_data, const std::string& case_path, const bool isTest)
 {
+    requireEntries(case_data, "the case", { "model" });
+    requireEntries(case_data["model"], "'model'", { "filename" });
+
     mfem::Mesh mesh;
     if (isTest) {
         mesh = assembleMesh(assembleMeshString(case_data["model"]["filename"]));
-- 
2.43.0


From bd46c5e6605a35b671912a58b4472b832aa0bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:42 +0000
Subject: [PATCH 04/60] fix: use the default step and final time for probes
 that ask for saves

---
 src/driver/driver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 97fd24a..d034592 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -745,8 +745,9 @@ Probes buildProbes(const json& case_data)
             int requested_saves = probe_data["saves"];
             if (requested_saves <= 0) return 1;
 
-            double t_final = case_data["solver_options"]["final_time"].get<double>();
-            double dt = case_data["solver_options"]["time_step"].get<double>();
+            const auto opts{ buildSolverOptions(case_data) };
+            double t_final = opts.final_time;
+            double dt = opts.time_step;
             if (dt <= 0.0) return 1; // Placeholder; will be corrected by recalculateExportSteps
 
             int total_simulation_steps = static_cast<int>(std::ceil(t_final / dt));
-- 
2.43.0


From 93737d70ea8f4de3bff7429f41aa4e718b0461ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:42 +0000
Subject: [PATCH 05/60] fix: reject initial sources with an unknown magnitude
 type

---
 src/driver/driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index d034592..9e3faff 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -581,6 +581,9 @@ Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 					assemble3DVector(case_data["sources"][s]["polarization"]))
 				);
 			}
+			else {
+				throw std::runtime_error("Unknown magnitude type of an initial source in Json.");
+			}
 		}
 		else if (case_data["sources"][s]["type"] == "planewave") {
 			const auto& mag = case_data["sources"][s]["magnitude"];
-- 
2.43.0


From eb572d54889254b5a56a51acdda1c830901cfaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:42 +0000
Subject: [PATCH 06/60] fix: take the highest frequency over all declared
 sources

---
 src/driver/driver.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 9e3faff..e10d5df 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -38,8 +38,8 @@ double calculateMaximumSourceFrequency(const json& case_data)
                     max_freq = f_edge;
                     found_modulated = true;
                 }
-            // Plain Gaussian: explicit type="gaussian", no frequency
-            } else if (mag.contains("type") && mag["type"] == "gaussian" && mag.contains("spread")) {
+            // Plain Gaussian or dipole: no frequency
+            } else if (mag.contains("spread")) {
                 double spread = mag["spread"].get<double>();
                 if (spread > 0.0 && spread < min_spread) {
                     min_spread = spread;
@@ -49,12 +49,12 @@ double calculateMaximumSourceFrequency(const json& case_data)
         }
     }
 
-    if (found_modulated) {
-        return max_freq;
+    if (found_gaussian) {
+        max_freq = std::max(max_freq, c_si / (2.0 * min_spread));
     }
 
-    if (found_gaussian) {
-        return c_si / (2.0 * min_spread);
+    if (found_modulated || found_gaussian) {
+        return max_freq;
     }
 
     return 1e9;
-- 
2.43.0


From 421678041c495e924ec405195bb3caba77935be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:56 +0000
Subject: [PATCH 07/60] fix: treat elements without a declared material as
 vacuum

---
 src/components/Model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/components/Model.cpp b/src/components/Model.cpp
index 5dcb966..3bd7168 100644
--- a/src/components/Model.cpp
+++ b/src/components/Model.cpp
@@ -136,6 +136,9 @@ mfem::Vector Model::initialiseGeomTagVector() const
 			size = geomTag;
 		}
 	}
+	if (pmesh_.attributes.Size() != 0) {
+		size = std::max(size, pmesh_.attributes.Max());
+	}
 	assert(size > 0);
 	mfem::Vector res(size);
 	res = 0.0;
@@ -145,6 +148,7 @@ mfem::Vector Model::initialiseGeomTagVector() const
 mfem::Vector Model::buildEpsMuPiecewiseVector(const FieldType& f) const
 {
 	auto res{ initialiseGeomTagVector() };
+	res = 1.0; // Vacuum for the tags without a declared material.
 
 	for (auto const& [geomTag, mat] : attToMatMap_) {
 		switch (f) {
-- 
2.43.0


From ab019a8b49c95d4a543f94a35c2b15127a4ff551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:54 +0000
Subject: [PATCH 08/60] fix: state the defaults the case reader really uses

---
 README.md | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 1f76262..61c033c 100644
--- a/README.md
+++ b/README.md
@@ -117,7 +117,7 @@ An OpenSEMBA/dgtd JSON file must have the following structure; **bold** entries
 		- cfl:
 			- Double. Courant–Friedrichs–Lewy condition used to compute the automatic time step in 1D. Not available for 2D or 3D. Ignored if `time_step` is also defined. Must be in the range (0.0, 1.0].
 		- order:
-			- Integer. Polynomial order of the finite element basis. If undefined, defaults to `3`.
+			- Integer. Polynomial order of the finite element basis. If undefined, defaults to `2`.
 		- spectral:
 			- Boolean. Use a spectral evolution operator that assembles the full E/H system matrix and derives the time step from its eigenvalues. High computational cost; does not support all features. If undefined, defaults to `false`.
 		- export_operator:
@@ -168,7 +168,7 @@ An OpenSEMBA/dgtd JSON file must have the following structure; **bold** entries
 	- Object. Controls data extraction. If undefined, no data is recorded.
 		- exporter:
 			- Object. Enables ParaView (VisIt) field export.
-				- name: String. Output dataset name. Defaults to the mesh filename stem.
+				- name: String. Output dataset name. Defaults to the mesh filename.
 				- steps: Integer. Export every N time steps. Mutually exclusive with `saves`.
 				- saves: Integer. Total number of exports over the whole simulation. The step interval is computed automatically. Mutually exclusive with `steps`.
 		- point:
@@ -183,7 +183,7 @@ An OpenSEMBA/dgtd JSON file must have the following structure; **bold** entries
 				- steps / saves: See exporter above.
 		- domain_snapshot:
 			- Object. Periodic full-domain field snapshot (alternative to the incremental exporter).
-				- name: String. Output name. Defaults to the mesh filename stem.
+				- name: String. Output name. Defaults to the mesh filename.
 				- steps / saves: See exporter above.
 		- rcssurface:
 			- Array. Each entry exports surface E/H field snapshots projected onto a boundary submesh to a compact binary file (`surface_data.bin`). The binary contains a geometry header (quadrature point positions, outward normals, and weights) followed by time-stamped E/H field blocks. Intended for offline RCS post-processing.
-- 
2.43.0


From a5541685ee94d739a12e8d139094b155d6bfe78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:30 +0000
Subject: [PATCH 09/60] fix: keep the polar angle defined at the origin and
 accurate near the z axis

---
 src/components/Spherical.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/Spherical.cpp b/src/components/Spherical.cpp
index ba3477e..9592274 100644
--- a/src/components/Spherical.cpp
+++ b/src/components/Spherical.cpp
@@ -18,7 +18,8 @@ SphericalVector::SphericalVector(const mfem::Vector& p)
 	};
 	radius = std::sqrt(t_radius);
 	// For 2D points (in the xy-plane) theta is always pi/2 (equatorial plane).
-	p.Size() == 2 ? theta = M_PI / 2.0 : theta = std::acos(p[2] / radius);
+	// atan2 keeps the angle defined at the origin and accurate close to the z axis.
+	p.Size() == 2 ? theta = M_PI / 2.0 : theta = std::atan2(std::sqrt(p[0] * p[0] + p[1] * p[1]), p[2]);
 	phi = std::atan2(p[1], p[0]);
 }
 
-- 
2.43.0


From d0fde351c05d1e4b34a78295c1d0a5bd281f7e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:50 +0000
Subject: [PATCH 10/60] fix: reference quadrilateral and hexahedron of the
 nodal operator

The nodal (Hesthaven) operator scales its derivative and lift matrices by the
volume of a [-1,1] reference element. The quadrilateral reference mesh was the
unit square, so derivatives came out four times too large. Hexahedra got the
reference tetrahedron, whose matrices do not even have the right size.
---
 src/evolution/HesthavenEvolution.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index f678a83..3b5bce2 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -32,12 +32,19 @@ Mesh getRefMeshForGeomType(const Element::Type elType, const int dimension)
 		case Element::Type::TRIANGLE:
 			return Mesh::MakeCartesian2D(1, 1, elType, true, 2.0, 2.0);
 		case Element::Type::QUADRILATERAL:
-			return Mesh::MakeCartesian2D(1, 1, elType);
+			return Mesh::MakeCartesian2D(1, 1, elType, true, 2.0, 2.0);
 		default:
 			throw std::runtime_error("Incorrect Element Type for dimension 2 mesh.");
 		}
 	case 3:
-		return buildHesthavenRefTetrahedra();
+		switch (elType) {
+		case Element::Type::TETRAHEDRON:
+			return buildHesthavenRefTetrahedra();
+		case Element::Type::HEXAHEDRON:
+			return Mesh::MakeCartesian3D(1, 1, 1, elType, 2.0, 2.0, 2.0);
+		default:
+			throw std::runtime_error("Incorrect Element Type for dimension 3 mesh.");
+		}
 	default:
 		throw std::runtime_error("Hesthaven Evolution Operator only supports dimensions 2 or 3.");
 	}
-- 
2.43.0


From 6500d284fc289c3ce9d1365c5a5596ca96b18210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:34 +0000
Subject: [PATCH 11/60] fix: conductivity in the Maxwell evolution operator

Materials with a bulk conductivity were treated as lossless when the case
selected the "maxwell" operator: the term -sigma*E was never applied.
---
 src/evolution/MaxwellEvolution.cpp | 8 ++++++++
 src/evolution/MaxwellEvolution.h   | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/evolution/MaxwellEvolution.cpp b/src/evolution/MaxwellEvolution.cpp
index 3c5b7f9..1cd5f0a 100644
--- a/src/evolution/MaxwellEvolution.cpp
+++ b/src/evolution/MaxwellEvolution.cpp
@@ -186,6 +186,10 @@ MaxwellEvolution::MaxwellEvolution(
 
 		MFNN_ = dgFactory.buildMaxwellTwoNormalOperator<ParBilinearForm>();
 
+		MSigma_ = buildByMult<ParFiniteElementSpace, ParBilinearForm>(
+			dgFactory.buildInverseMassMatrixSubOperator<ParBilinearForm>(E)->SpMat(),
+			dgFactory.buildSigmaMassOperator<ParBilinearForm>()->SpMat(), fes_);
+
 #ifdef SHOW_TIMER_INFORMATION
 		if (verbose && Mpi::WorldRank() == 0){
 			std::cout << "Elapsed time (ms): " << std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>
@@ -232,6 +236,10 @@ void MaxwellEvolution::Mult(const Vector& in, Vector& out) const
 		MS_[E][y]->AddMult(hOld[z], eNew[x]);
 		MS_[E][z]->AddMult(hOld[y], eNew[x], -1.0);
 
+		//Conductivity
+
+		MSigma_->AddMult(eOld[x], eNew[x], -1.0);
+
 		MFN_[H][E][y]->AddMult(eFlux[z], hNew[x], 1.0);
 		MFN_[H][E][z]->AddMult(eFlux[y], hNew[x], -1.0);
 		MFN_[E][H][y]->AddMult(hFlux[z], eNew[x], -1.0);
diff --git a/src/evolution/MaxwellEvolution.h b/src/evolution/MaxwellEvolution.h
index 58bf324..c9df0f0 100644
--- a/src/evolution/MaxwellEvolution.h
+++ b/src/evolution/MaxwellEvolution.h
@@ -33,7 +33,7 @@ private:
 	std::array<std::array<std::array<std::unique_ptr<mfem::ParBilinearForm>, 3>, 2>, 2> MFNB_;
 	std::array<std::array<std::array<std::array<std::unique_ptr<mfem::ParBilinearForm>, 3>, 3>, 2>, 2> MFNNB_;
 	
-	Vector CND_;
+	std::unique_ptr<mfem::ParBilinearForm> MSigma_;
 	
 	//Total Field and Scattered Field operators for SubMeshing
 	std::array<std::unique_ptr<mfem::BilinearForm>, 2> MInvTFSF_;
-- 
2.43.0


From ba0f7c33e98889c7509bda1d621d20561a230590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:37 +0000
Subject: [PATCH 12/60] fix: nodal operator on quadrilaterals and hexahedra
 with varying Jacobian

The reference element matrices only describe affine elements. Bilinear
quadrilaterals and trilinear hexahedra passed as linear elements and got wrong
derivatives; they now take the path of curved elements.
---
 src/evolution/HesthavenEvolution.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index 3b5bce2..7cda4d6 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -211,6 +211,23 @@ void storeFaceInformation(FiniteElementSpace& subFES, HesthavenElement& hestElem
 	}
 }
 
+static bool hasConstantJacobian(Mesh& mesh, const ElementId e)
+{
+	auto trans{ mesh.GetElementTransformation(e) };
+	const auto vertices{ Geometries.GetVertices(mesh.GetElementBaseGeometry(e)) };
+	trans->SetIntPoint(&vertices->IntPoint(0));
+	const DenseMatrix first(trans->Jacobian());
+	for (auto v{ 1 }; v < vertices->GetNPoints(); v++) {
+		trans->SetIntPoint(&vertices->IntPoint(v));
+		DenseMatrix diff(trans->Jacobian());
+		diff -= first;
+		if (diff.MaxMaxNorm() > 1e-8 * first.MaxMaxNorm()) {
+			return false;
+		}
+	}
+	return true;
+}
+
 std::pair<Array<ElementId>,std::map<ElementId,Array<NodeId>>> initCurvedAndLinearElementsLists(const ParFiniteElementSpace& fes, const std::vector<Source::Position>& curved_pos)
 {
 	Mesh mesh_p1(*fes.GetMesh());
@@ -228,7 +245,8 @@ std::pair<Array<ElementId>,std::map<ElementId,Array<NodeId>>> initCurvedAndLinea
 		fes_p1.GetElementDofs(e, elemdofs_p1);
 		fes   .GetElementDofs(e, elemdofs_p2);
 		MFEM_ASSERT(elemdofs_p1, elemdofs_p2);
-		auto isCurved = false;
+		// Reference matrices only describe affine elements, so bilinear ones are handled as curved.
+		auto isCurved = !hasConstantJacobian(mesh_p1, e);
 		for (auto d= 0; d < elemdofs_p1.Size(); d++) {
 			if (std::abs(pos_lin[elemdofs_p1[d]][0] - pos_cur[elemdofs_p2[d]][0]) > tol ||
 				std::abs(pos_lin[elemdofs_p1[d]][1] - pos_cur[elemdofs_p2[d]][1]) > tol ||
-- 
2.43.0


From 3f4b5c1e7d6a8bec3ef7d1638e707915a43c3bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:50 +0000
Subject: [PATCH 13/60] fix: lift matrix scale of hexahedra in the nodal
 operator

The face mass matrix of a reference hexahedron was assembled with half of its
area, so fluxes between hexahedra had half the strength they need.
---
 src/evolution/HesthavenEvolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index 7cda4d6..8baf7a3 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -79,7 +79,7 @@ DynamicMatrix assembleHesthavenRefElemEmat(const Element::Type elType, const int
 	}
 
 	DynamicMatrix emat = assembleEmat(subFES, boundary_markers);
-	if (dimension == 3 && elType == Element::Type::TETRAHEDRON)
+	if (dimension == 3)
 	{
 		emat *= 2.0;
 	}
-- 
2.43.0


From dbcdd1d11013b027c45e3a47114e477d58ee8ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:31 +0000
Subject: [PATCH 14/60] fix: absorbing boundaries of the nodal operator for
 partial upwinding

Jumps at absorbing faces were divided by the upwind parameter. Centred flux
gave a division by zero, and any value below one scaled the centred part of
the flux as well. Absorbing faces now use full upwinding, as the assembled
operators do, and interior ones have the same strength as exterior ones.
---
 src/evolution/HesthavenEvolution.cpp | 28 +++++++++++++++++++++++-----
 src/evolution/HesthavenEvolution.h   |  2 ++
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index 8baf7a3..1c3f2d5 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -314,7 +314,7 @@ void HesthavenEvolution::applyBoundaryConditionsToNodes(const BoundaryMaps& bdrM
 
 	applyBdrBC(bdrMaps.PEC, -2.0, 0.0);
 	applyBdrBC(bdrMaps.PMC, 0.0, -2.0);
-	applyBdrBC(bdrMaps.SMA, -1.0 / opts_.alpha, -1.0 / opts_.alpha);
+	applyBdrBC(bdrMaps.SMA, -1.0, -1.0);
 
 	auto applyIntBdrBC = [&](const auto& bc, double e_coeff, double h_coeff) {
 		for (int m = 0; m < bc.mapBElem1.size(); m++) {
@@ -333,10 +333,26 @@ void HesthavenEvolution::applyBoundaryConditionsToNodes(const BoundaryMaps& bdrM
 
 	applyIntBdrBC(bdrMaps.intPEC, -1.0, 0.0);
 	applyIntBdrBC(bdrMaps.intPMC, 0.0, -1.0);
-	applyIntBdrBC(bdrMaps.intSMA, -0.5, -0.5);
+	applyIntBdrBC(bdrMaps.intSMA, -1.0, -1.0);
 
 }
 
+void HesthavenEvolution::initUpwindWeights()
+{
+	upwind_.setConstant(connectivity_.global.size(), opts_.alpha);
+	// Absorbing conditions are always fully upwinded.
+	auto setAbsorbing = [&](const auto& maps) {
+		for (const auto& nodes : maps) {
+			for (const auto& node : nodes) {
+				upwind_[node] = 1.0;
+			}
+		}
+	};
+	setAbsorbing(connectivity_.boundary.SMA.mapB);
+	setAbsorbing(connectivity_.boundary.intSMA.mapBElem1);
+	setAbsorbing(connectivity_.boundary.intSMA.mapBElem2);
+}
+
 HesthavenEvolution::HesthavenEvolution(ParFiniteElementSpace& fes, Model& model, SourcesManager& srcmngr, EvolutionOptions& opts) :
 	TimeDependentOperator(numberOfFieldComponents* numberOfMaxDimensions* fes.GetNDofs()),
 	fes_(fes),
@@ -369,6 +385,8 @@ HesthavenEvolution::HesthavenEvolution(ParFiniteElementSpace& fes, Model& model,
 
 	checkForTFSFInCurvedElements();
 
+	initUpwindWeights();
+
 	hestElemLinearStorage_.resize(linearElements_.Size());
 
 	bool allElementsSameGeomType = true; 
@@ -474,7 +492,6 @@ void loadOutVectors(const Eigen::VectorXd& data, const FiniteElementSpace& fes,
 
 void HesthavenEvolution::Mult(const Vector& in, Vector& out) const
 {
-	double alpha = opts_.alpha;
 	in.UseDevice(true);
 	out.UseDevice(true);
 
@@ -530,6 +547,7 @@ void HesthavenEvolution::Mult(const Vector& in, Vector& out) const
 		}
 
 		HesthavenFields elemFlux(elemFluxSize);
+		const Eigen::VectorXd upwind = upwind_.segment(hestElemLinearStorage_[e].id * elemFluxSize, elemFluxSize);
 
 		for (int x = X; x <= Z; x++) {
 			int y = (x + 1) % 3;
@@ -539,8 +557,8 @@ void HesthavenEvolution::Mult(const Vector& in, Vector& out) const
 			const Eigen::VectorXd& nory = hestElemLinearStorage_[e].normals[y];
 			const Eigen::VectorXd& norz = hestElemLinearStorage_[e].normals[z];
 
-			elemFlux.h_[x] = -1.0 * nory.asDiagonal() * jumpsElem.e_[z] +       norz.asDiagonal() * jumpsElem.e_[y] + alpha * (jumpsElem.h_[x] - ndotdH.asDiagonal() * norx);
-			elemFlux.e_[x] =        nory.asDiagonal() * jumpsElem.h_[z] - 1.0 * norz.asDiagonal() * jumpsElem.h_[y] + alpha * (jumpsElem.e_[x] - ndotdE.asDiagonal() * norx);
+			elemFlux.h_[x] = -1.0 * nory.asDiagonal() * jumpsElem.e_[z] +       norz.asDiagonal() * jumpsElem.e_[y] + upwind.asDiagonal() * (jumpsElem.h_[x] - ndotdH.asDiagonal() * norx);
+			elemFlux.e_[x] =        nory.asDiagonal() * jumpsElem.h_[z] - 1.0 * norz.asDiagonal() * jumpsElem.h_[y] + upwind.asDiagonal() * (jumpsElem.e_[x] - ndotdE.asDiagonal() * norx);
 
 		}
 
diff --git a/src/evolution/HesthavenEvolution.h b/src/evolution/HesthavenEvolution.h
index fcf7d3a..780e233 100644
--- a/src/evolution/HesthavenEvolution.h
+++ b/src/evolution/HesthavenEvolution.h
@@ -27,6 +27,7 @@ private:
 	void evaluateTFSF(HesthavenFields& jumps) const;
 	void storeDirectionalMatrices(ParFiniteElementSpace& subFES, const DynamicMatrix& refInvMass, HesthavenElement&);
 	void checkForTFSFInCurvedElements();
+	void initUpwindWeights();
 	void applyBoundaryConditionsToNodes(const BoundaryMaps&, const FieldsInputMaps& in, HesthavenFields& out) const;
 	bool isDoFinCurvedElement(const NodeId& d) const;
 	
@@ -44,6 +45,7 @@ private:
 	std::vector<HesthavenElement> hestElemLinearStorage_;
 	std::vector<HesthavenCurvedElement> hestElemCurvedStorage_;
 	DynamicMatrix refLIFT_;
+	Eigen::VectorXd upwind_;
 	Connectivities connectivity_;
 	std::vector<Source::Position> positions_;
 
-- 
2.43.0


From 487e0fe6219c57ebcd027b9db713404e7a8d61e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:31 +0000
Subject: [PATCH 15/60] fix: strength of interior walls in the nodal operator

Interior perfect electric and magnetic walls reflected the tangential field
with half the jump of an exterior wall, which let energy grow. They now use
the jump of an image field, as the assembled operators do.
---
 src/evolution/HesthavenEvolution.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index 1c3f2d5..76d6560 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -331,8 +331,8 @@ void HesthavenEvolution::applyBoundaryConditionsToNodes(const BoundaryMaps& bdrM
 		}
 	};
 
-	applyIntBdrBC(bdrMaps.intPEC, -1.0, 0.0);
-	applyIntBdrBC(bdrMaps.intPMC, 0.0, -1.0);
+	applyIntBdrBC(bdrMaps.intPEC, -2.0, 0.0);
+	applyIntBdrBC(bdrMaps.intPMC, 0.0, -2.0);
 	applyIntBdrBC(bdrMaps.intSMA, -1.0, -1.0);
 
 }
-- 
2.43.0


From 8657c60cc52a2a0db45ef2deee1f6c907f7565e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:40 +0000
Subject: [PATCH 16/60] fix: total-field side of surface faces in the nodal
 operator

The nodal operator decided which element of a total-field face is on the
scattered side from the orientation of the boundary element (2D) or from
the element numbering (3D), while the other operators ask the submesher.
Ask the submesher here too.
---
 src/evolution/HesthavenEvolutionMethods.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/evolution/HesthavenEvolutionMethods.cpp b/src/evolution/HesthavenEvolutionMethods.cpp
index ce6e6b0..9be0707 100644
--- a/src/evolution/HesthavenEvolutionMethods.cpp
+++ b/src/evolution/HesthavenEvolutionMethods.cpp
@@ -595,14 +595,22 @@ namespace maxwell {
 		auto fec{ dynamic_cast<const L2_FECollection*>(fes_.FEColl()) };
 		auto attMap{ mapOriginalAttributes(model_.getConstMesh()) };
 
-		double ori{ 0.0 };
+		std::set<ElementId> sfElements;
+		if (markers.find(BdrCond::TotalFieldIn) != markers.end()) {
+			TotalFieldScatteredFieldSubMesher tfsfSubMesher(model_.getConstMesh(), markers.at(BdrCond::TotalFieldIn));
+			if (tfsfSubMesher.getSFConstSubMesh() != nullptr) {
+				const auto& sfMap{ tfsfSubMesher.getSFConstSubMesh()->GetParentElementIDMap() };
+				sfElements.insert(sfMap.begin(), sfMap.end());
+			}
+		}
+
 		auto intBdrNodeMesh{ Mesh(model_.getConstMesh()) };
 		for (auto b{ 0 }; b < model_.getConstMesh().GetNBE(); b++) {
 			for (const auto& marker : markers) {
 				if (marker.second[model_.getConstMesh().GetBdrAttribute(b) - 1] == 1) {
 					FaceElementTransformations* faceTrans;
 					model_.getConstMesh().FaceIsInterior(model_.getMesh().GetFaceElementTransformations(model_.getConstMesh().GetBdrElementFaceIndex(b))->ElementNo) ? faceTrans = model_.getMesh().GetInternalBdrFaceTransformations(b) : faceTrans = model_.getMesh().GetBdrFaceTransformations(b);
-					fes_.GetMesh()->Dimension() == 2 ? ori = calculateCrossBaryVertexSign(*fes_.GetMesh(), *faceTrans, b) : ori = buildFaceOrientation(*fes_.GetMesh(), b);
+					const auto ori{ sfElements.count(faceTrans->Elem1No) ? 1.0 : -1.0 };
 					auto twoElemSubMesh{ assembleInteriorFaceSubMesh(model_.getMesh(), *faceTrans, attMap) };
 					FiniteElementSpace subFES(&twoElemSubMesh, fec);
 					auto nodePairs{ buildConnectivityForInteriorBdrFace(*faceTrans, fes_, subFES) };
-- 
2.43.0


From d37e24a1e3a9d78654dc89e353fb5f2e8af33057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:07:30 +0000
Subject: [PATCH 17/60] fix: several total-field sources in the Maxwell
 evolution operator

Projecting each source overwrote the previous one, and the result was
added once per source. Sum the sources and add them once.
---
 src/evolution/MaxwellEvolution.cpp | 1 +
 src/solver/SourcesManager.cpp      | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evolution/MaxwellEvolution.cpp b/src/evolution/MaxwellEvolution.cpp
index 1cd5f0a..1a99bb6 100644
--- a/src/evolution/MaxwellEvolution.cpp
+++ b/src/evolution/MaxwellEvolution.cpp
@@ -333,6 +333,7 @@ void MaxwellEvolution::Mult(const Vector& in, Vector& out) const
 				eMap.TransferAdd(eTemp[x], eNew[x]);
 
 			}
+			break; // func already holds the sum of every TotalField source.
 		}
 	}
 }
diff --git a/src/solver/SourcesManager.cpp b/src/solver/SourcesManager.cpp
index 77bf290..8400126 100644
--- a/src/solver/SourcesManager.cpp
+++ b/src/solver/SourcesManager.cpp
@@ -65,7 +65,10 @@ FieldGridFuncs SourcesManager::evalTimeVarField(const Time time, FiniteElementSp
                 };
                 FunctionCoefficient func(f);
                 func.SetTime(time);
-                cached_tfsf_fields_[ft][d].ProjectCoefficient(func);
+                GridFunction gf(fes);
+                gf.UseDevice(true);
+                gf.ProjectCoefficient(func);
+                cached_tfsf_fields_[ft][d] += gf;
             }
         }
     }
-- 
2.43.0


From d9d70754700a45c0415ea94ac632db4fb4b4bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:36 +0000
Subject: [PATCH 18/60] fix: automatic time step of the nodal operator with
 curved elements

The estimate indexed the list of straight elements with the element
number, reading past its end as soon as one element was curved or the
mesh was distributed. Go through the stored elements and take the
maximum over ranks.
---
 src/evolution/HesthavenEvolution.h |  2 ++
 src/solver/Solver.cpp              | 13 +++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/evolution/HesthavenEvolution.h b/src/evolution/HesthavenEvolution.h
index 780e233..c7e8abd 100644
--- a/src/evolution/HesthavenEvolution.h
+++ b/src/evolution/HesthavenEvolution.h
@@ -21,6 +21,8 @@ public:
 	virtual void Mult(const mfem::Vector& in, mfem::Vector& out) const;
 
 	const HesthavenElement& getHesthavenElement(const ElementId& e) const { return hestElemLinearStorage_[e]; }
+	const std::vector<HesthavenElement>& getHesthavenLinearElements() const { return hestElemLinearStorage_; }
+	bool hasCurvedElements() const { return !hestElemCurvedStorage_.empty(); }
 
 private:
 
diff --git a/src/solver/Solver.cpp b/src/solver/Solver.cpp
index 9504984..5ae3846 100644
--- a/src/solver/Solver.cpp
+++ b/src/solver/Solver.cpp
@@ -335,14 +335,15 @@ double estimateTimeStep(const Model& model, const SolverOptions& opts, const mfe
     if (opts.evolution.op == EvolutionOperatorType::Hesthaven && dimension == 3) {
         auto maxFscaleVal{ 0.0 };
         const auto& evol = dynamic_cast<const HesthavenEvolution*>(tdo);
-        for (auto e{ 0 }; e < serialmesh.GetNE(); e++) {
-            const auto& fscaleMax{ evol->getHesthavenElement(e).fscale.maxCoeff() };
-            if (fscaleMax > maxFscaleVal) {
-                maxFscaleVal = fscaleMax;
-            }
+        for (const auto& elem : evol->getHesthavenLinearElements()) {
+            maxFscaleVal = std::max(maxFscaleVal, elem.fscale.maxCoeff());
         }
+        int curved{ evol->hasCurvedElements() ? 1 : 0 };
+        MPI_Allreduce(MPI_IN_PLACE, &maxFscaleVal, 1, MPI_DOUBLE, MPI_MAX, model.getConstMesh().GetComm());
+        MPI_Allreduce(MPI_IN_PLACE, &curved, 1, MPI_INT, MPI_MAX, model.getConstMesh().GetComm());
         const auto& order = serialfes.FEColl()->GetOrder();
-        return 1.0 * opts.cfl / (maxFscaleVal * order * order);
+        const auto fscale_dt{ maxFscaleVal > 0.0 ? 1.0 * opts.cfl / (maxFscaleVal * order * order) : base_dt };
+        return curved ? std::min(fscale_dt, base_dt) : fscale_dt; // Curved elements hold no fscale.
     }
 
     // Global-specific 3D scaling
-- 
2.43.0


From 80a2c322710096b4b293093110aff2e7a8b8c28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:36 +0000
Subject: [PATCH 19/60] fix: automatic time step of zeroth order in two and
 three dimensions

The node spacing was read from the second node of an element that only
has one.
---
 src/solver/Solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/Solver.cpp b/src/solver/Solver.cpp
index 5ae3846..546370c 100644
--- a/src/solver/Solver.cpp
+++ b/src/solver/Solver.cpp
@@ -290,7 +290,7 @@ double calcMeshTimeStep(mfem::FiniteElementSpace& fes, double heuristic_divisor,
                         const mfem::Element::Type& special_elem_type)
 {
     Vector dtscale{ getTimeStepScale(*fes.GetMesh()) };
-    double rmin{ getJacobiGQ_RMin(fes.FEColl()->GetOrder()) };
+    double rmin{ getJacobiGQ_RMin(std::max(fes.FEColl()->GetOrder(), 1)) };
     auto dt{ dtscale.Min() * rmin * 2.0 / 3.0 / physicalConstants::speedOfLight };
     dt *= 0.75; // Purely heuristic.
     if (checkIfElemTypeInMesh(*fes.GetMesh(), special_elem_type)) {
-- 
2.43.0


From f7face6b72bf407c67f5fc7a6f91de7bcbc97695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:36 +0000
Subject: [PATCH 20/60] fix: unstable automatic time step of first order in one
 dimension

With first order the step equalled the element length, twice what RK4
can integrate with upwind flux.
---
 src/solver/Solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/Solver.cpp b/src/solver/Solver.cpp
index 546370c..b243ee5 100644
--- a/src/solver/Solver.cpp
+++ b/src/solver/Solver.cpp
@@ -314,7 +314,7 @@ double estimateTimeStep(const Model& model, const SolverOptions& opts, const mfe
             maxTimeStep = getMinimumInterNodeDistance(serialfes) / physicalConstants::speedOfLight;
         }
         else {
-            maxTimeStep = getMinimumInterNodeDistance(serialfes) / pow(double(fes.FEColl()->GetOrder()), 1.5) / physicalConstants::speedOfLight;
+            maxTimeStep = getMinimumInterNodeDistance(serialfes) / pow(std::max(double(fes.FEColl()->GetOrder()), 2.0), 1.5) / physicalConstants::speedOfLight;
         }
         return opts.cfl * maxTimeStep;
     }
-- 
2.43.0


From 99c7feeb7c9c8d486d286a49715b886502bd7ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:29:58 +0000
Subject: [PATCH 21/60] fix: reject malformed input of the surface impedance
 fit

---
 src/components/SIBCPoleResidueFitting.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/components/SIBCPoleResidueFitting.cpp b/src/components/SIBCPoleResidueFitting.cpp
index 940b12c..4480b61 100644
--- a/src/components/SIBCPoleResidueFitting.cpp
+++ b/src/components/SIBCPoleResidueFitting.cpp
@@ -1,6 +1,8 @@
 #include <iostream>
 #include <cmath>
 #include <iomanip>
+#include <limits>
+#include <stdexcept>
 
 #include <Eigen/Eigenvalues>
 
@@ -185,7 +187,7 @@ static FitResult checkQuality(const NormalizedFreqs& freqs,
     
     bool stable = true;
     for(int i = 0; i < poles.size(); ++i) {
-        if(poles[i].real() > 1e-6) stable = false;
+        if(!(poles[i].real() <= 1e-6)) stable = false;
     }
 
     double max_err = 0.0;
@@ -198,7 +200,7 @@ static FitResult checkQuality(const NormalizedFreqs& freqs,
         }
         
         double err = std::abs(z_fit - Z_target[k]) / (std::abs(Z_target[k]) + 1e-20);
-        if(err > max_err) max_err = err;
+        if(!(err <= max_err)) max_err = err;
     }
 
     return {poles, residues, order, max_err, stable};
@@ -213,6 +215,9 @@ FitResult calcPolesAndResidues(const std::vector<double>& freqs_vec, const Vecto
     auto system = build_system(freqs, Z_target, weights, order);
 
     auto poles = solveForPoles(system, freqs.scale, order);
+    if (!poles.allFinite()) {
+        return {poles, VectorCx::Zero(order), order, std::numeric_limits<double>::infinity(), false};
+    }
     auto residues = calcResidues(freqs, Z_target, poles);
 
     return checkQuality(freqs, Z_target, poles, residues, order);
@@ -225,6 +230,12 @@ FitResult findOptimalPoles(const SGBCProperties& props,
                            int max_poles, 
                            double tol) 
 {
+    if (props.layers.empty() || !(props.totalWidth() > 0.0) || !std::isfinite(props.totalWidth())) {
+        throw std::runtime_error("SIBC fitting requires a material of positive, finite width.");
+    }
+    if (!(start_freq > 0.0) || !(end_freq > start_freq) || !std::isfinite(end_freq) || num_points < 2) {
+        throw std::runtime_error("SIBC fitting requires 0 < start_freq < end_freq and at least two points.");
+    }
 
     std::vector<double> freqs(num_points);
     double step = std::pow(end_freq / start_freq, 1.0 / (num_points - 1));
@@ -232,6 +243,9 @@ FitResult findOptimalPoles(const SGBCProperties& props,
     for(int i = 1; i < num_points; ++i) freqs[i] = freqs[i-1] * step;
 
     VectorCx Z_target = generatePhysicsTarget(props, freqs);
+    if (!Z_target.allFinite()) {
+        throw std::runtime_error("SIBC fitting found an impedance that is not finite.");
+    }
 
     FitResult res;
     res.max_error = 1e9;
-- 
2.43.0


From 8107af505cbfec128865279979bc054c01bba1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:00 +0000
Subject: [PATCH 22/60] fix: reject boundary conditions on tags beyond those of
 the mesh

---
 src/components/Model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/components/Model.cpp b/src/components/Model.cpp
index 3bd7168..caf19c9 100644
--- a/src/components/Model.cpp
+++ b/src/components/Model.cpp
@@ -191,6 +191,10 @@ void Model::assembleGeomTagToTypeMap(
 			throw std::runtime_error("geomTag <= 0 in GeomTagToTypeMap assembly.");
 		}
 
+		if (pmesh_.bdr_attributes.Size() == 0 || geomTag > pmesh_.bdr_attributes.Max()) {
+			throw std::runtime_error("geomTag " + std::to_string(geomTag) + " is not a boundary tag of the mesh.");
+		}
+
 		auto& marker{ getMarker(bdr, isInterior) };
 
 		if (marker.Size() == 0) {
-- 
2.43.0


From 77e71a8f661992b65d59fba7b021406372bd0f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:00 +0000
Subject: [PATCH 23/60] fix: reject total-field sources defined on different
 surfaces

---
 src/driver/driver.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index e10d5df..923e878 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -9,6 +9,7 @@
 #include <cmath>
 #include <iomanip>
 #include <limits>
+#include <set>
 #include <sstream>
 #include <filesystem>
 #include <fstream>
@@ -1592,6 +1593,15 @@ maxwell::Solver buildSolverJson(const std::string& case_name, const bool isTest)
 
 void postProcessInformation(const json& case_data, maxwell::Model& model, maxwell::SolverOptions& solverOpts) 
 {
+	// All total-field sources are injected through one surface.
+	std::set<std::set<int>> tfsf_surfaces;
+	for (const auto& source : case_data["sources"]) {
+		if (source["type"] == "planewave" || source["type"] == "dipole") {
+			tfsf_surfaces.insert(source["tags"].get<std::set<int>>());
+		}
+	}
+	checkIfThrows(tfsf_surfaces.size() <= 1, "All planewave and dipole sources must be defined on the same tags.");
+
 	for (auto s{ 0 }; s < case_data["sources"].size(); s++) {
 		mfem::Array<int> tfsf_tags;
 		if (case_data["sources"][s]["type"] == "planewave" || case_data["sources"][s]["type"] == "dipole") {
-- 
2.43.0


From cf2af36c5e446e3b22bab28f1ff44029d1c23d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:59 +0000
Subject: [PATCH 24/60] fix: initial fields whose centre has fewer components
 than the mesh

---
 src/components/Sources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/Sources.cpp b/src/components/Sources.cpp
index e54bb85..893b5f9 100644
--- a/src/components/Sources.cpp
+++ b/src/components/Sources.cpp
@@ -46,7 +46,7 @@ double InitialField::eval(
 	Position pos(p.Size());
 	Position center(p.Size());
 	center = 0.0;
-	for (int v{0}; v < center.Size(); v++){
+	for (int v{0}; v < std::min(center.Size(), center_.Size()); v++){
 		center[v] = center_[v];
 	}
 	for (int i{ 0 }; i < p.Size(); ++i) {
-- 
2.43.0


From 74484a8f6c6acd56a184d83ceb4915e7de59da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:15 +0000
Subject: [PATCH 25/60] fix: total-field side of one-dimensional surfaces
 follows position, not numbering

---
 src/components/SubMesher.cpp | 76 +++++++++++-------------------------
 1 file changed, 22 insertions(+), 54 deletions(-)

diff --git a/src/components/SubMesher.cpp b/src/components/SubMesher.cpp
index 29ea54e..7017452 100644
--- a/src/components/SubMesher.cpp
+++ b/src/components/SubMesher.cpp
@@ -467,32 +467,20 @@ void TotalFieldScatteredFieldSubMesher::setGlobalTFSFAttributesForSubMeshing(Mes
 	}
 }
 
+bool isElementLeftOfPoint1D(Mesh& m, int e, int be)
+{
+	return getBarycenterOfElement(m, e)[0] < m.GetVertex(m.GetBdrElement(be)->GetVertices()[0])[0];
+}
+
 SetPairs TotalFieldScatteredFieldSubMesher::twoPointAssignator(Mesh& m, int be, bool flag)
 {
 	auto be_trans{ getFaceElementTransformation(m, be) };
-	std::pair<FaceId, IsTF> set_e1;
-	std::pair<FaceId, IsTF> set_e2;
-	switch (flag) {
-	case false: //If first boundary we find
-		if (be_trans->Elem1No == 0 && be_trans->Elem2No < 0) {
-			set_e1 = std::make_pair(0, true);
-			set_e2 = std::make_pair(NotFound, false);
-		}
-		else {
-			set_e1 = std::make_pair(1, false);
-			set_e2 = std::make_pair(0, true);
-		}
-		break;
-	case true: //If second boundary we find
-		if (be_trans->Elem1No == m.GetNE() - 1 && be_trans->Elem2No < 0) {
-			set_e1 = std::make_pair(1, true);
-			set_e2 = std::make_pair(NotFound, false);
-		}
-		else {
-			set_e1 = std::make_pair(1, true);
-			set_e2 = std::make_pair(0, false);
-		}
-		break;
+	auto e1_is_left{ isElementLeftOfPoint1D(m, be_trans->Elem1No, be) };
+	std::pair<FaceId, IsTF> set_e1 = std::make_pair(e1_is_left ? 1 : 0, e1_is_left == flag);
+	std::pair<FaceId, IsTF> set_e2 = std::make_pair(e1_is_left ? 0 : 1, e1_is_left != flag);
+	if (be_trans->Elem2No < 0) {
+		set_e1.second = true;
+		set_e2 = std::make_pair(NotFound, false);
 	}
 	return std::make_pair(set_e1, set_e2);
 }
@@ -501,46 +489,26 @@ void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsOnePoint1D(Mesh&
 {
 	for (int be = 0; be < m.GetNBE(); be++) {
 		if (marker[m.GetBdrAttribute(be) - 1] == 1) {
-			auto be_trans{ getFaceElementTransformation(m, be) };
-			std::pair<FaceId, IsTF> set_e1;
-			std::pair<FaceId, IsTF> set_e2;
-			if (be_trans->Elem1No == 0) {
-				set_e1 = std::make_pair(0, true);
-				set_e2 = std::make_pair(NotFound, false);
-			}
-			else if (be_trans->Elem1No == m.GetNE() - 1) {
-				set_e1 = std::make_pair(1, true);
-				set_e2 = std::make_pair(NotFound, false);
-			}
-			else {
-				set_e1 = std::make_pair(1, false);
-				set_e2 = std::make_pair(0, true);
-			}
-			std::pair<FaceId, FaceId> facesInfo = std::make_pair(set_e1.first, set_e2.first);
-			std::pair<IsTF, IsTF> dirInfo = std::make_pair(set_e1.second, set_e2.second);
-			prepareSubMeshInfo(m, be_trans, facesInfo, set_e1.second);
+			auto sets{ twoPointAssignator(m, be, false) };
+			std::pair<FaceId, FaceId> facesInfo = std::make_pair(sets.first.first, sets.second.first);
+			prepareSubMeshInfo(m, getFaceElementTransformation(m, be), facesInfo, sets.first.second);
 		}
 	}
 }
 
 void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsTwoPoints1D(Mesh& m, const Array<int>& marker)
 {
-	auto flag{ false };
+	auto center{ 0.0 };
 	for (int be = 0; be < m.GetNBE(); be++) {
 		if (marker[m.GetBdrAttribute(be) - 1] == 1) {
-			SetPairs sets;
-			switch (flag) {
-			case false:
-				sets = twoPointAssignator(m, be, flag);
-				flag = true;
-				break;
-			case true:
-				sets = twoPointAssignator(m, be, flag);
-				break;
-			}
-
+			center += 0.5 * m.GetVertex(m.GetBdrElement(be)->GetVertices()[0])[0];
+		}
+	}
+	for (int be = 0; be < m.GetNBE(); be++) {
+		if (marker[m.GetBdrAttribute(be) - 1] == 1) {
+			auto is_right_point{ m.GetVertex(m.GetBdrElement(be)->GetVertices()[0])[0] > center };
+			auto sets{ twoPointAssignator(m, be, is_right_point) };
 			std::pair<FaceId, FaceId> facesInfo = std::make_pair(sets.first.first, sets.second.first);
-			std::pair<IsTF, IsTF> dirInfo = std::make_pair(sets.first.second, sets.second.second);
 			prepareSubMeshInfo(m, getFaceElementTransformation(m, be), facesInfo, sets.first.second);
 		}
 	}
-- 
2.43.0


From 9b0c94e17ddebe21655ce1dea201546dfdae73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:36:01 +0000
Subject: [PATCH 26/60] fix: total-field side of elongated three-dimensional
 surfaces

---
 src/components/SubMesher.cpp | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/src/components/SubMesher.cpp b/src/components/SubMesher.cpp
index 7017452..ba6fec8 100644
--- a/src/components/SubMesher.cpp
+++ b/src/components/SubMesher.cpp
@@ -646,7 +646,7 @@ void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing
 {
 	// Compute centroid of all TFSF boundary vertices.
 	// For a convex TFSF surface the centroid lies inside the TF region,
-	// so the element whose barycenter is closer to it is the TF element.
+	// so the element on its side of the face is the TF element.
 	// This is invariant to face-normal orientation and handles corner
 	// elements (adjacent to multiple TFSF faces) consistently.
 	Vector tfsf_center(3);
@@ -677,34 +677,16 @@ void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing
 			auto fe_trans{ getFaceElementTransformation(m,be) };
 			m.GetElementFaces(fe_trans->Elem1No, el1_face, el1_ori);
 
-			// Determine TF/SF by centroid distance: closer to center = TF.
+			// Determine TF/SF by the side of the face: same side as the center = TF.
 			Vector bary1 = getBarycenterOfElement(m, fe_trans->Elem1No);
-			double dist1_sq = 0.0;
+			Vector face_bary = getBarycenterOfFaceElement(m, m.GetBdrElementFaceIndex(be));
+			Vector normal = buildNormal3D(m, be);
+			double side_elem1 = 0.0, side_center = 0.0;
 			for (int d = 0; d < 3; d++) {
-				double diff = bary1[d] - tfsf_center[d];
-				dist1_sq += diff * diff;
-			}
-
-			bool elem1_is_tf;
-			if (fe_trans->Elem2No >= 0) {
-				Vector bary2 = getBarycenterOfElement(m, fe_trans->Elem2No);
-				double dist2_sq = 0.0;
-				for (int d = 0; d < 3; d++) {
-					double diff = bary2[d] - tfsf_center[d];
-					dist2_sq += diff * diff;
-				}
-				elem1_is_tf = dist1_sq < dist2_sq;
-			}
-			else {
-				// Boundary face with no Elem2: compare element to face barycenter
-				Vector face_bary = getBarycenterOfFaceElement(m, m.GetBdrElementFaceIndex(be));
-				double face_dist_sq = 0.0;
-				for (int d = 0; d < 3; d++) {
-					double diff = face_bary[d] - tfsf_center[d];
-					face_dist_sq += diff * diff;
-				}
-				elem1_is_tf = dist1_sq < face_dist_sq;
+				side_elem1 += (bary1[d] - face_bary[d]) * normal[d];
+				side_center += (tfsf_center[d] - face_bary[d]) * normal[d];
 			}
+			bool elem1_is_tf = side_elem1 * side_center > 0.0;
 
 			std::pair<FaceId, IsTF> set_v1;
 			for (int f = 0; f < el1_face.Size(); f++) {
-- 
2.43.0


From 5cae39c84b25b7865b81746000986478e69e1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:24 +0000
Subject: [PATCH 27/60] fix: reject open bases in the Hesthaven operator

---
 src/evolution/HesthavenEvolutionMethods.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evolution/HesthavenEvolutionMethods.cpp b/src/evolution/HesthavenEvolutionMethods.cpp
index 9be0707..fcaa73b 100644
--- a/src/evolution/HesthavenEvolutionMethods.cpp
+++ b/src/evolution/HesthavenEvolutionMethods.cpp
@@ -728,6 +728,10 @@ namespace maxwell {
 
 	GlobalConnectivity assembleGlobalConnectivityMap(Mesh& m, const L2_FECollection* fec)
 	{
+		if (Quadrature1D::CheckClosed(BasisType::GetQuadrature1D(fec->GetBasisType())) == Quadrature1D::Invalid) {
+			throw std::runtime_error("The Hesthaven operator needs a basis with nodes on the element faces.");
+		}
+
 		GlobalConnectivity res;
 		auto mesh{ Mesh(m) };
 		FiniteElementSpace globalFES(&mesh, fec);
-- 
2.43.0


From 75f491deb9577deaf64c6993a7c6d1d760a666be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:53:10 +0000
Subject: [PATCH 28/60] fix: wait for every rank before rewriting the mesh file

---
 src/driver/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 923e878..e59a6b3 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1212,6 +1212,8 @@ void fixGmshMesh(const std::string& filepath)
 
 mfem::Mesh assembleMesh(const std::string& mesh_string)
 {
+	// Other ranks may still be reading the file from a previous call.
+	MPI_Barrier(MPI_COMM_WORLD);
 	if (Mpi::WorldRank() == 0) {
 		fixGmshMesh(mesh_string);
 	}
-- 
2.43.0


From 11f104722f0186fc752dea5539e94cfa597b7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:02 +0000
Subject: [PATCH 29/60] fix: near field probes create folders outside those of
 the case

---
 src/solver/ProbesManager.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index e338b0e..422aa1c 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -288,16 +288,6 @@ DataCollection ProbesManager::buildNearFieldDataCollectionInfo(
 
     DataCollection res{ p.name, nearFieldReqs_.at(&p)->getSubMesh() };
     
-    std::string parent_path = "Exports/" + getRunModeTag() + "/" + caseName_ + "/NearToFarFieldProbes/" + p.name;
-    if (isNodeRoot()) {
-        std::filesystem::create_directories(parent_path);
-    }
-    MPI_Barrier(MPI_COMM_WORLD);
-
-    std::string path = parent_path + "/rank" + std::to_string(Mpi::WorldRank());
-    std::filesystem::create_directories(path); 
-    res.SetPrefixPath(path);
-    
     res.RegisterField("Ex.gf", &nearFieldReqs_.at(&p)->getConstField(E, X));
     res.RegisterField("Ey.gf", &nearFieldReqs_.at(&p)->getConstField(E, Y));
     res.RegisterField("Ez.gf", &nearFieldReqs_.at(&p)->getConstField(E, Z));
@@ -433,7 +423,9 @@ void ProbesManager::updateProbe(NearFieldProbe& p, Time time)
     auto it{ nearFieldProbesCollection_.find(&p) };
     assert(it != nearFieldProbesCollection_.end());
     auto& dc{ it->second };
-    dc.SetPrefixPath("Exports/" + getRunModeTag() + "/" + caseName_ + "/NearToFarFieldProbes/" + p.name + "/rank" + std::to_string(Mpi::WorldRank()));
+    std::string path = "Exports/" + getRunModeTag() + "/" + caseName_ + "/NearToFarFieldProbes/" + p.name + "/rank" + std::to_string(Mpi::WorldRank());
+    std::filesystem::create_directories(path);
+    dc.SetPrefixPath(path);
 
     nearFieldReqs_.at(&p)->updateFields();
 
-- 
2.43.0


From 86f03ba641709a75de07c741d22932b7303859b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:02 +0000
Subject: [PATCH 30/60] fix: mesh path of cases whose path or name contains a
 file extension

---
 src/driver/driver.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index e59a6b3..0b1c822 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -944,15 +944,11 @@ std::string assembleLauncherMeshString(const std::string& mesh_name, const std::
 	std::string s_msh  = ".msh";
 	std::string s_mesh = ".mesh";
 
-	std::string::size_type input_json = path.find(s_json);
-	std::string::size_type input_msh = mesh_name.find(s_msh);
-	std::string::size_type input_mesh = mesh_name.find(s_mesh);
+	const std::string extension = std::filesystem::path(mesh_name).extension().string();
 
-	path.erase(input_json, s_json.length());
-	if (input_msh != std::string::npos)
-		path.append(s_msh);
-	if (input_mesh != std::string::npos)
-		path.append(s_mesh);
+	path.erase(path.rfind(s_json), s_json.length());
+	if (extension == s_msh || extension == s_mesh)
+		path.append(extension);
 
 	return path;
 }
-- 
2.43.0


From 82af0b037fe7a9f8a01aef6a240e3ca5ff268467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:03 +0000
Subject: [PATCH 31/60] fix: far field of directions through a surface point or
 of points at the origin

The angle between the observation direction and a surface point was taken
from an arccosine whose argument can exceed one by rounding, or is 0/0 at
the origin. Either turned the whole far field into NaN.
---
 src/components/FarField.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/components/FarField.cpp b/src/components/FarField.cpp
index 290eb3a..7bef52b 100644
--- a/src/components/FarField.cpp
+++ b/src/components/FarField.cpp
@@ -20,6 +20,16 @@ const Vector buildObsPointVec(const SphericalAngles& angles)
 	return res;
 }
 
+static double angleBetween(const Vector& a, const Vector& b)
+{
+	const auto norms{ a.Norml2() * b.Norml2() };
+	if (norms == 0.0) {
+		return M_PI_2;
+	}
+	// Rounding can take the cosine of aligned vectors slightly out of range.
+	return std::acos(std::clamp((a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) / norms, -1.0, 1.0));
+}
+
 double calcPsiAngle2D(const Vector& p, const SphericalAngles& angles)
 {
 	auto vec{ buildObsPointVec(angles) };
@@ -27,13 +37,13 @@ double calcPsiAngle2D(const Vector& p, const SphericalAngles& angles)
 	surfVec[0] = p[0];
 	surfVec[1] = p[1];
 	surfVec[2] = 0.0;
-	return std::acos((vec[0] * surfVec[0] + vec[1] * surfVec[1] + vec[2] * surfVec[2])  / (vec.Norml2() * surfVec.Norml2()));
+	return angleBetween(vec, surfVec);
 }
 
 double calcPsiAngle3D(const Vector& p, const SphericalAngles& angles)
 {
 	auto vec{ buildObsPointVec(angles) };
-	return std::acos((vec[0] * p[0] + vec[1] * p[1] + vec[2] * p[2]) / (vec.Norml2() * p.Norml2()));
+	return angleBetween(vec, p);
 }
 
 /* These functions represent the exponential part of e^(+j k r' cos(psi)) found in Equations 8.31 and 8.32 of Taflove's Computational Electrodynamics: The Finite-Difference Time-Domain Method. 
-- 
2.43.0


From c144bfb471fa207503649d9f7898c6ec34849bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:03 +0000
Subject: [PATCH 32/60] fix: reject cases without a plane wave when normalising
 far fields

The check compared with the opposite sign of the initial values, so a case
with no plane wave was normalised with a meaningless pulse.
---
 src/components/FarField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/FarField.cpp b/src/components/FarField.cpp
index 7bef52b..3a9aa26 100644
--- a/src/components/FarField.cpp
+++ b/src/components/FarField.cpp
@@ -270,7 +270,7 @@ PlaneWaveData buildPlaneWaveData(const json& json, const std::string& meshDir)
 		}
 	}
 
-	if (std::abs(spread - 1e5) < 1e-6 || std::abs(projMean - 1e5) < 1e-6) {
+	if (std::abs(spread + 1e5) < 1e-6 || std::abs(projMean + 1e5) < 1e-6) {
 		throw std::runtime_error("Verify PlaneWaveData inputs for RCS normalization term.");
 	}
 
-- 
2.43.0


From 95cecfc79aa072107eae1339616cc8b512da2a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:03 +0000
Subject: [PATCH 33/60] fix: keep the numbering of near field elements when
 reading them back

The mesh was prepared for refinement while being read, which renumbers the
vertices of triangles and tetrahedra. The recorded fields were then applied
to the wrong nodes.
---
 src/components/FarField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/FarField.cpp b/src/components/FarField.cpp
index 3a9aa26..d97303f 100644
--- a/src/components/FarField.cpp
+++ b/src/components/FarField.cpp
@@ -454,7 +454,7 @@ void FreqFields::normaliseFields(const double value)
 
 FarField::FarField(const std::string& data_path, const std::string& json_path, std::vector<Frequency>& frequencies, const std::vector<SphericalAngles>& angle_vec)
 {
-	auto mesh = Mesh::LoadFromFile(data_path + "/mesh");
+	auto mesh = Mesh::LoadFromFile(data_path + "/mesh", 1, 0);
 	auto pmesh = ParMesh(MPI_COMM_WORLD, mesh);
 	auto sfes = buildFESFromGF(mesh, data_path);
 	auto fec = dynamic_cast<const DG_FECollection*>(sfes->FEColl());
-- 
2.43.0


From 57e3fc8dd77892d935c03096c77dfd1d4b99be5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:03 +0000
Subject: [PATCH 34/60] fix: radar cross section of near field folders depends
 on the sampling

The spectrum of the fields was divided by the number of snapshots, but the
incident power, which is quadratic, was divided by it only once.
---
 src/components/RCSManager.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/components/RCSManager.cpp b/src/components/RCSManager.cpp
index 16dce27..6f763f8 100644
--- a/src/components/RCSManager.cpp
+++ b/src/components/RCSManager.cpp
@@ -35,14 +35,11 @@ static std::vector<double> buildIncomingPowerTerm(const std::string& json_path,
 			auto w = std::complex<double>(cos(arg), -sin(arg));
 			freq_val += gauss_val[t] * w; 
 		}
+		freq_val /= static_cast<double>(time.size());
 		freq2complex.emplace(std::make_pair(frequencies[f],freq_val));
 		res[f] = std::norm(freq_val) / (2.0 * physicalConstants::freeSpaceImpedance);
 	}
 
-	for (auto f = 0; f < res.size(); f++) {
-		res[f] /= time.size();
-	}
-
 	return res;
 }
 
-- 
2.43.0


From d1a6325f2dc1c0f4a3321112689664f2ddfff131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:03 +0000
Subject: [PATCH 35/60] fix: repeated directions or frequencies inflate the far
 field

Amplitudes were summed by value of direction and frequency, so a request
that named one twice (0 and 360 degrees after rounding, for instance) added
its amplitude twice and quadrupled the power.
---
 src/components/RCSSurfacePostProcessor.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/components/RCSSurfacePostProcessor.cpp b/src/components/RCSSurfacePostProcessor.cpp
index e39d8ce..cc0b3f3 100644
--- a/src/components/RCSSurfacePostProcessor.cpp
+++ b/src/components/RCSSurfacePostProcessor.cpp
@@ -207,11 +207,9 @@ void RCSSurfacePostProcessor::computeAndWriteResults(
         }
 
     // Accumulators for coherent summation of complex amplitudes across ranks.
-    // Key: (angle, frequency), Value: {N_theta, N_phi, L_theta, L_phi}
-    std::map<std::pair<SphericalAngles, double>, std::array<std::complex<double>, 4>> coherentSum;
-    for (const auto& ang : angles)
-        for (const auto& f : normFreqs)
-            coherentSum[{ang, f}] = {0, 0, 0, 0};
+    // Index: [frequency][angle], Value: {N_theta, N_phi, L_theta, L_phi}
+    std::vector<std::vector<std::array<std::complex<double>, 4>>> coherentSum(
+        nFreq, std::vector<std::array<std::complex<double>, 4>>(angles.size()));
 
     PlaneWaveData pw(0.0, 0.0);
     std::vector<double> incidentPower;
@@ -321,7 +319,8 @@ void RCSSurfacePostProcessor::computeAndWriteResults(
             const double freq = normFreqs[fi];
             const double k = 2.0 * M_PI * freq;
 
-            for (const auto& ang : angles) {
+            for (size_t ai = 0; ai < angles.size(); ++ai) {
+                const auto& ang = angles[ai];
                 // Build phase-term function coefficients.
                 std::unique_ptr<FunctionCoefficient> fcR, fcI;
                 if (spaceDim == 2) {
@@ -385,7 +384,7 @@ void RCSSurfacePostProcessor::computeAndWriteResults(
                 auto L_phi   = dot3(ph, L_vec);
 
                 // Accumulate complex amplitudes coherently across ranks.
-                auto& acc = coherentSum[{ang, freq}];
+                auto& acc = coherentSum[fi][ai];
                 acc[0] += N_theta;
                 acc[1] += N_phi;
                 acc[2] += L_theta;
@@ -402,8 +401,9 @@ void RCSSurfacePostProcessor::computeAndWriteResults(
         const double k = 2.0 * M_PI * freq;
         double Z0 = physicalConstants::freeSpaceImpedance;
 
-        for (const auto& ang : angles) {
-            const auto& acc = coherentSum[{ang, freq}];
+        for (size_t ai = 0; ai < angles.size(); ++ai) {
+            const auto& ang = angles[ai];
+            const auto& acc = coherentSum[fi][ai];
             auto N_theta = acc[0];
             auto N_phi   = acc[1];
             auto L_theta = acc[2];
-- 
2.43.0


From 2e4915d2d2c572d549b8bcc1568ea8fb267028cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:03 +0000
Subject: [PATCH 36/60] fix: incomplete surface records are used as data

A record cut short, as a stopped run leaves it, was read with its last
snapshot filled up with zeros. A record cut in its header or geometry, or
without snapshots, gave arbitrary or NaN results. Incomplete snapshots are
now ignored and unusable files reported.
---
 src/components/RCSSurfacePostProcessor.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/components/RCSSurfacePostProcessor.cpp b/src/components/RCSSurfacePostProcessor.cpp
index cc0b3f3..df57c7f 100644
--- a/src/components/RCSSurfacePostProcessor.cpp
+++ b/src/components/RCSSurfacePostProcessor.cpp
@@ -79,8 +79,19 @@ RCSSurfacePostProcessor::readRankData(const std::string& rankPath) const
     std::ifstream f(rankPath + "/surface_data.bin", std::ios::binary);
     if (!f) throw std::runtime_error("Cannot open " + rankPath + "/surface_data.bin");
 
+    const auto fileSize = std::filesystem::file_size(rankPath + "/surface_data.bin");
     int32_t hdr[5];
     f.read(reinterpret_cast<char*>(hdr), sizeof(hdr));
+    if (!f || hdr[0] < 2 || hdr[0] > 3 || hdr[1] <= 0 || hdr[2] < 0 || hdr[3] < 0)
+        throw std::runtime_error("Invalid header in " + rankPath + "/surface_data.bin");
+    const auto geometryBytes = (hdr[0] + 4) * static_cast<std::uintmax_t>(hdr[3]) * sizeof(double);
+    if (fileSize < sizeof(hdr) + geometryBytes)
+        throw std::runtime_error("Incomplete geometry in " + rankPath + "/surface_data.bin");
+    const auto snapshotBytes = (1 + 6 * static_cast<std::uintmax_t>(hdr[1])) * sizeof(double);
+    const auto numSnapshots = (fileSize - sizeof(hdr) - geometryBytes) / snapshotBytes;
+    if (numSnapshots == 0)
+        throw std::runtime_error("No snapshots in " + rankPath + "/surface_data.bin");
+
     rd.geometry.spaceDimension = hdr[0];
     rd.geometry.numDofs        = hdr[1];
     rd.geometry.numBdrElements = hdr[2];
@@ -102,16 +113,17 @@ RCSSurfacePostProcessor::readRankData(const std::string& rankPath) const
            nqp * sizeof(double));
 
     const int ndofs = rd.geometry.numDofs;
-    while (f.peek() != EOF) {
+    // A run stopped while writing leaves an incomplete last snapshot, which is ignored.
+    for (std::uintmax_t s = 0; s < numSnapshots; ++s) {
         SurfaceSnapshot snap;
         f.read(reinterpret_cast<char*>(&snap.time), sizeof(double));
-        if (!f) break;
 
         for (auto* vec : {&snap.Ex, &snap.Ey, &snap.Ez,
                           &snap.Hx, &snap.Hy, &snap.Hz}) {
             vec->resize(ndofs);
             f.read(reinterpret_cast<char*>(vec->data()), ndofs * sizeof(double));
         }
+        if (!f) throw std::runtime_error("Cannot read " + rankPath + "/surface_data.bin");
         rd.snapshots.push_back(std::move(snap));
     }
     return rd;
-- 
2.43.0


From b7a1efc1abb71141aa8253f76f92d901cd496135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:03 +0000
Subject: [PATCH 37/60] fix: surface records of different instants are combined

The amplitudes of all ranks are added, which is only meaningful if they
were recorded at the same times. Records left over from another run, or
of a rank that stopped earlier, are now reported.
---
 src/components/RCSSurfacePostProcessor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/components/RCSSurfacePostProcessor.cpp b/src/components/RCSSurfacePostProcessor.cpp
index df57c7f..d287bfc 100644
--- a/src/components/RCSSurfacePostProcessor.cpp
+++ b/src/components/RCSSurfacePostProcessor.cpp
@@ -226,6 +226,7 @@ void RCSSurfacePostProcessor::computeAndWriteResults(
     PlaneWaveData pw(0.0, 0.0);
     std::vector<double> incidentPower;
     int spaceDim = 0;
+    std::vector<double> firstTimes;
     bool firstRank = true;
     size_t rankIdx = 0;
 
@@ -266,7 +267,11 @@ void RCSSurfacePostProcessor::computeAndWriteResults(
         for (int i = 0; i < nSnap; ++i)
             times[i] = snapshots[i].time / physicalConstants::speedOfLight;
 
+        if (!firstRank && times != firstTimes)
+            throw std::runtime_error("Ranks were not recorded at the same times: " + rp);
+
         if (firstRank) {
+            firstTimes = times;
             pw = extractPlaneWaveData(jsonPath);
             std::cout << "    Plane-wave : spread=" << pw.spread
                       << ", mean=" << pw.mean;
-- 
2.43.0


From 3483e1a1d05c106304457529838a5638b202d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:49:08 +0000
Subject: [PATCH 38/60] fix: runs with surface probes stop when a rank holds no
 part of the surface

Near field and RCS surface probes were set up on every rank and reported an
empty surface on ranks that own none of its faces. Such ranks now record
nothing.
---
 src/solver/ProbesManager.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index 422aa1c..13ef239 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -1,6 +1,7 @@
 #include "ProbesManager.h"
 #include "math/PhysicalConstants.h"
 #include "general/text.hpp"
+#include <algorithm>
 #include <cmath>
 #include <filesystem>
 
@@ -92,6 +93,22 @@ ParaViewDataCollection ProbesManager::buildParaviewDataCollectionInfo(const Expo
     return pd;
 }
 
+// A rank with no part of a recorded surface has nothing to record.
+static bool surfaceIsOnOtherRanks(const std::vector<int>& tags, ParFiniteElementSpace& fes)
+{
+    const auto& mesh{ *fes.GetParMesh() };
+    int local{ 0 };
+    for (int be = 0; be < mesh.GetNBE(); be++) {
+        if (std::find(tags.begin(), tags.end(), mesh.GetBdrAttribute(be)) != tags.end()) {
+            local = 1;
+            break;
+        }
+    }
+    int any{ 0 };
+    MPI_Allreduce(&local, &any, 1, MPI_INT, MPI_MAX, fes.GetComm());
+    return any && !local;
+}
+
 ProbesManager::ProbesManager(Probes pIn, mfem::ParFiniteElementSpace& fes, Fields<ParFiniteElementSpace, ParGridFunction>& fields, const SolverOptions& opts) :
     probes{ pIn },
     fes_{ fes }
@@ -109,6 +126,9 @@ ProbesManager::ProbesManager(Probes pIn, mfem::ParFiniteElementSpace& fes, Field
     }
 
     for (const auto& p : probes.nearFieldProbes) {
+        if (surfaceIsOnOtherRanks(p.tags, fes_)) {
+            continue;
+        }
         auto dgfec{ dynamic_cast<const DG_FECollection*>(fes_.FEColl()) };
         if (!dgfec)
         {
@@ -421,7 +441,9 @@ void ProbesManager::updateProbe(NearFieldProbe& p, Time time)
     }
 
     auto it{ nearFieldProbesCollection_.find(&p) };
-    assert(it != nearFieldProbesCollection_.end());
+    if (it == nearFieldProbesCollection_.end()) {
+        return;
+    }
     auto& dc{ it->second };
     std::string path = "Exports/" + getRunModeTag() + "/" + caseName_ + "/NearToFarFieldProbes/" + p.name + "/rank" + std::to_string(Mpi::WorldRank());
     std::filesystem::create_directories(path);
@@ -558,6 +580,9 @@ void ProbesManager::initRCSSurfaceExporters()
 {
     if (!fields_) return;
     for (const auto& p : probes.rcsSurfaceProbes) {
+        if (surfaceIsOnOtherRanks(p.tags, fes_)) {
+            continue;
+        }
         auto dgfec = dynamic_cast<const DG_FECollection*>(fes_.FEColl());
         if (!dgfec) {
             throw std::runtime_error("The FiniteElementCollection in the FiniteElementSpace is not DG.");
-- 
2.43.0


From fdea9745e7fc941c4dadd9d1a20d603e1bac4729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:49:18 +0000
Subject: [PATCH 39/60] fix: partitions can cut recorded surfaces

The elements on the two sides of a surface recorded by a near field or RCS
surface probe could be assigned to different ranks. In three dimensions the
owner of such a face depends on its orientation in the mesh file, so parts
of the surface were recorded from the wrong side or lost. Both sides are now
kept together, as for total-field surfaces.
---
 src/driver/driver.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 0b1c822..dee64be 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1240,6 +1240,24 @@ Array<int> getTFSFTags(const json& case_data)
     return res;
 }
 
+// Surfaces whose fields are recorded from one of their sides.
+Array<int> getRecordedSurfaceTags(const json& case_data)
+{
+    Array<int> res;
+    if (!case_data.contains("probes")) return res;
+
+    for (const auto& type : { "farfield", "rcssurface" }) {
+        if (!case_data["probes"].contains(type)) continue;
+        for (const auto& probe : case_data["probes"][type]) {
+            if (!probe.contains("tags")) continue;
+            for (const auto& tag : probe["tags"]) {
+                res.Append(tag.get<int>());
+            }
+        }
+    }
+    return res;
+}
+
 Array<int> getSGBCTags(const json& case_data)
 {
     Array<int> res;
@@ -1308,6 +1326,7 @@ Model buildModel(const json& case_data, const std::string& case_path, const bool
     int* partitioning = mesh.GeneratePartitioning(Mpi::WorldSize());
     mfem::Array<int> tfsf_tags = getTFSFTags(case_data);
     mfem::Array<int> sgbc_tags  = getSGBCTags(case_data);
+    tfsf_tags.Append(getRecordedSurfaceTags(case_data));
 
     if (tfsf_tags.Size() || sgbc_tags.Size()){
         applyPairwiseConstraintsPartitioning(mesh, partitioning, tfsf_tags, sgbc_tags);
-- 
2.43.0


From 52612ebd41f32fbf04a6b8661bdae0a5a54e7502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:48 +0000
Subject: [PATCH 40/60] fix: surface records paired with a mesh of another
 dimension are read out of bounds

The post-processor took the dimension from the record and the coordinates
from the mesh. It now rejects the pair when they differ.
---
 src/components/RCSSurfacePostProcessor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/components/RCSSurfacePostProcessor.cpp b/src/components/RCSSurfacePostProcessor.cpp
index d287bfc..7752e7a 100644
--- a/src/components/RCSSurfacePostProcessor.cpp
+++ b/src/components/RCSSurfacePostProcessor.cpp
@@ -323,6 +323,8 @@ void RCSSurfacePostProcessor::computeAndWriteResults(
         // --- Load mesh and build FES for this rank ---
         std::cout << "    Loading mesh..." << std::flush;
         auto mesh = Mesh::LoadFromFile(rp + "/mesh", 1, 0);
+        if (mesh.SpaceDimension() != spaceDim)
+            throw std::runtime_error("Mesh and surface data have different dimensions in " + rp);
         auto pmesh = ParMesh(MPI_COMM_WORLD, mesh);
         int order = determineFECOrder(pmesh, nDofs);
         DG_FECollection fec(order, pmesh.Dimension(), rd.geometry.basisType);
-- 
2.43.0


From bda94331e6a245ded95641985d9fa98a48cf7d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:28:16 +0000
Subject: [PATCH 41/60] fix: layer order of subgridded sheets follows the
 element numbering

The side on which the first layer of a sheet lies was taken from the mesh
face, whose normal always leaves its first element. The normal of the
boundary element decides it now, so renumbering the elements no longer
turns the stack over.
---
 src/evolution/GlobalEvolution.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index db84650..ca8258b 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -90,7 +90,10 @@ GlobalEvolution::GlobalEvolution(
                         // Ensure consistent orientation: pair.first = inward side,
                         // pair.second = outward side (face normal direction).
                         // If face_ori < 0, Elem1 is on the outward side, so swap.
-                        bool swap = buildFaceOrientation(*mesh, b) < 0.0;
+                        // The normal is that of the boundary element, as faces always point out of Elem1.
+                        int bdr_face, bdr_ori;
+                        mesh->GetBdrElementFace(b, &bdr_face, &bdr_ori);
+                        bool swap = (buildFaceOrientation(*mesh, b) < 0.0) != (bdr_ori % 2 != 0);
 
                         // Compute per-DOF normals on curved faces.
                         // Find local DOF indices within Elem1 for each face DOF.
-- 
2.43.0


From 28d9f1f7b322b394518557a2ebc4918dd0e22423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:38:16 +0000
Subject: [PATCH 42/60] fix: data race on the one-time notice of subgridded
 sheets

Several threads tested and set the same plain flag while advancing their
sheets.
---
 src/solver/SolverExtension.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/SolverExtension.cpp b/src/solver/SolverExtension.cpp
index f02751d..c6af5a3 100644
--- a/src/solver/SolverExtension.cpp
+++ b/src/solver/SolverExtension.cpp
@@ -3,6 +3,7 @@
 #include "components/DGOperatorFactory.h"
 #include "components/ProblemDescription.h"
 
+#include <atomic>
 #include <cstring>
 #include <algorithm>
 
@@ -411,9 +412,8 @@ void SGBCWrapper::solve(const Time t, const Time dt)
     }
 
     {
-        static bool temporal_warning_printed = false;
-        if (!temporal_warning_printed) {
-            temporal_warning_printed = true;
+        static std::atomic<bool> temporal_warning_printed{ false };
+        if (!temporal_warning_printed.exchange(true)) {
 
             constexpr double c_si = physicalConstants::speedOfLight_SI;
             double dt_si = dt / c_si;
-- 
2.43.0


From e1a7adb5e80fc610b985d1ecfba9231d31e794de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:10:24 +0000
Subject: [PATCH 43/60] fix: tell the sides of a total field surface apart
 alike on every rank

A rank that held one of the two points of a 1D surface, or a flat patch of a
3D one, decided which side was inside from its own part alone. Use the whole
surface for the count of points and for the centre.
---
 src/components/SubMesher.cpp                | 33 +++++++++++----------
 src/components/SubMesher.h                  |  9 +++---
 src/driver/driver.cpp                       |  9 ++++--
 src/evolution/GlobalEvolution.cpp           |  2 +-
 src/evolution/HesthavenEvolutionMethods.cpp |  2 +-
 src/evolution/MaxwellEvolution.cpp          |  2 +-
 src/solver/SourcesManager.cpp               |  8 ++---
 src/solver/SourcesManager.h                 |  4 +--
 8 files changed, 38 insertions(+), 31 deletions(-)

diff --git a/src/components/SubMesher.cpp b/src/components/SubMesher.cpp
index ba6fec8..1f7a8eb 100644
--- a/src/components/SubMesher.cpp
+++ b/src/components/SubMesher.cpp
@@ -356,8 +356,9 @@ SubMesh createSubMeshFromParent(const Mesh& parent, const std::pair<Array<int>,
 	return res;
 }
 
-TotalFieldScatteredFieldSubMesher::TotalFieldScatteredFieldSubMesher(const Mesh& m, const Array<int>& marker)
+TotalFieldScatteredFieldSubMesher::TotalFieldScatteredFieldSubMesher(const Mesh& m, const Array<int>& marker, const Mesh* whole_mesh)
 {
+	const Mesh& whole{ whole_mesh ? *whole_mesh : m };
 	Mesh parent_for_global(m);
 	Mesh parent_for_individual(m);
 
@@ -365,13 +366,13 @@ TotalFieldScatteredFieldSubMesher::TotalFieldScatteredFieldSubMesher(const Mesh&
 
 	switch (m.Dimension()) {
 	case 1:
-		setIndividualTFSFAttributesForSubMeshing1D(parent_for_individual, marker);
+		setIndividualTFSFAttributesForSubMeshing1D(parent_for_individual, marker, whole);
 		break;
 	case 2:
 		setIndividualTFSFAttributesForSubMeshing2D(parent_for_individual, marker);
 		break;
 	default:
-		setIndividualTFSFAttributesForSubMeshing3D(parent_for_individual, marker);
+		setIndividualTFSFAttributesForSubMeshing3D(parent_for_individual, marker, whole);
 		break;
 	}
 
@@ -496,12 +497,12 @@ void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsOnePoint1D(Mesh&
 	}
 }
 
-void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsTwoPoints1D(Mesh& m, const Array<int>& marker)
+void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsTwoPoints1D(Mesh& m, const Array<int>& marker, const Mesh& whole_mesh)
 {
 	auto center{ 0.0 };
-	for (int be = 0; be < m.GetNBE(); be++) {
-		if (marker[m.GetBdrAttribute(be) - 1] == 1) {
-			center += 0.5 * m.GetVertex(m.GetBdrElement(be)->GetVertices()[0])[0];
+	for (int be = 0; be < whole_mesh.GetNBE(); be++) {
+		if (marker[whole_mesh.GetBdrAttribute(be) - 1] == 1) {
+			center += 0.5 * whole_mesh.GetVertex(whole_mesh.GetBdrElement(be)->GetVertices()[0])[0];
 		}
 	}
 	for (int be = 0; be < m.GetNBE(); be++) {
@@ -514,11 +515,11 @@ void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsTwoPoints1D(Mesh
 	}
 }
 
-void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing1D(Mesh& m, const Array<int>& marker)
+void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing1D(Mesh& m, const Array<int>& marker, const Mesh& whole_mesh)
 {
 	auto be_counter{ 0 };
-	for (int be = 0; be < m.GetNBE(); be++) {
-		if (marker[m.GetBdrAttribute(be) - 1] == 1) {
+	for (int be = 0; be < whole_mesh.GetNBE(); be++) {
+		if (marker[whole_mesh.GetBdrAttribute(be) - 1] == 1) {
 			be_counter++;
 		}
 	}
@@ -527,7 +528,7 @@ void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing
 		assignIndividualTFSFAttsOnePoint1D(m, marker);
 		break;
 	case 2:
-		assignIndividualTFSFAttsTwoPoints1D(m, marker);
+		assignIndividualTFSFAttsTwoPoints1D(m, marker, whole_mesh);
 		break;
 	default:
 		throw std::runtime_error("Only one or two TFSF points can be declared in a 1D Mesh.");
@@ -642,7 +643,7 @@ void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing
 	}
 }
 
-void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing3D(Mesh& m, const Array<int>& marker)
+void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing3D(Mesh& m, const Array<int>& marker, const Mesh& whole_mesh)
 {
 	// Compute centroid of all TFSF boundary vertices.
 	// For a convex TFSF surface the centroid lies inside the TF region,
@@ -653,13 +654,13 @@ void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing
 	tfsf_center = 0.0;
 	int n_verts = 0;
 	std::set<int> counted;
-	for (int be = 0; be < m.GetNBE(); be++) {
-		if (marker[m.GetBdrAttribute(be) - 1] != 1) continue;
+	for (int be = 0; be < whole_mesh.GetNBE(); be++) {
+		if (marker[whole_mesh.GetBdrAttribute(be) - 1] != 1) continue;
 		Array<int> verts;
-		m.GetBdrElementVertices(be, verts);
+		whole_mesh.GetBdrElementVertices(be, verts);
 		for (int i = 0; i < verts.Size(); i++) {
 			if (counted.insert(verts[i]).second) {
-				auto* v = m.GetVertex(verts[i]);
+				auto* v = whole_mesh.GetVertex(verts[i]);
 				for (int d = 0; d < 3; d++) tfsf_center[d] += v[d];
 				n_verts++;
 			}
diff --git a/src/components/SubMesher.h b/src/components/SubMesher.h
index 3470e3a..a45a173 100644
--- a/src/components/SubMesher.h
+++ b/src/components/SubMesher.h
@@ -18,7 +18,8 @@ class TotalFieldScatteredFieldSubMesher
 public:
 
 	TotalFieldScatteredFieldSubMesher(){};
-	TotalFieldScatteredFieldSubMesher(const Mesh&, const Array<int>& marker);
+	// In parallel runs the mesh holds only a part of the surface. The whole mesh, when given, is used to tell its sides apart.
+	TotalFieldScatteredFieldSubMesher(const Mesh&, const Array<int>& marker, const Mesh* whole_mesh = nullptr);
 
 	SubMesh* getTFSubMesh() { return tf_mesh_.get(); }
 	SubMesh* getSFSubMesh() { return sf_mesh_.get(); }
@@ -36,10 +37,10 @@ private:
 	
 	SetPairs twoPointAssignator(                    Mesh&, int be, bool flag);
 	void assignIndividualTFSFAttsOnePoint1D(        Mesh&, const Array<int>& marker);
-	void assignIndividualTFSFAttsTwoPoints1D(       Mesh&, const Array<int>& marker);
-	void setIndividualTFSFAttributesForSubMeshing1D(Mesh&, const Array<int>& marker);
+	void assignIndividualTFSFAttsTwoPoints1D(       Mesh&, const Array<int>& marker, const Mesh& whole_mesh);
+	void setIndividualTFSFAttributesForSubMeshing1D(Mesh&, const Array<int>& marker, const Mesh& whole_mesh);
 	void setIndividualTFSFAttributesForSubMeshing2D(Mesh&, const Array<int>& marker);
-	void setIndividualTFSFAttributesForSubMeshing3D(Mesh&, const Array<int>& marker);
+	void setIndividualTFSFAttributesForSubMeshing3D(Mesh&, const Array<int>& marker, const Mesh& whole_mesh);
 
 
 	std::vector<El2Face> elem_to_face_tf_;
diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index dee64be..a4f8278 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1628,14 +1628,19 @@ void postProcessInformation(const json& case_data, maxwell::Model& model, maxwel
 			auto tfsf_atts_present_in_partition_marker{ model.getMarker(maxwell::BdrCond::TotalFieldIn, true) };
 			tfsf_atts_present_in_partition_marker.SetSize(model.getConstMesh().bdr_attributes.Max());
 			tfsf_atts_present_in_partition_marker = 0;
+			bool tfsf_present_in_partition = false;
 			for (auto t = 0; t < tfsf_tags.Size(); t++){
+				// The marker covers the whole surface, so every partition tells its sides apart alike.
+				if (tfsf_tags[t] >= 1 && tfsf_tags[t] <= tfsf_atts_present_in_partition_marker.Size()){
+					tfsf_atts_present_in_partition_marker[tfsf_tags[t] - 1] = 1;
+				}
 				for (auto b = 0; b < model.getConstMesh().GetNBE(); b++){	
 					if (model.getMesh().GetBdrAttribute(b) == tfsf_tags[t]){
-						tfsf_atts_present_in_partition_marker[model.getMesh().GetBdrAttribute(b) - 1] = 1;
+						tfsf_present_in_partition = true;
 					}
 				}
 			}
-			if (tfsf_atts_present_in_partition_marker.Sum() != 0){
+			if (tfsf_present_in_partition){
 				model.getTotalFieldScatteredFieldToMarker().insert(std::make_pair(maxwell::BdrCond::TotalFieldIn, tfsf_atts_present_in_partition_marker));
 			}
 		}
diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index ca8258b..47293c5 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -319,7 +319,7 @@ GlobalEvolution::GlobalEvolution(
 
     // Keep TFSF submesh infrastructure for planewave source evaluation
     if (model_.getTotalFieldScatteredFieldToMarker().find(BdrCond::TotalFieldIn) != model_.getTotalFieldScatteredFieldToMarker().end()) {
-        srcmngr_.initTFSFPreReqs(model_.getConstMesh(), model_.getTotalFieldScatteredFieldToMarker().at(BdrCond::TotalFieldIn));
+        srcmngr_.initTFSFPreReqs(model_.getConstMesh(), model_.getTotalFieldScatteredFieldToMarker().at(BdrCond::TotalFieldIn), &model_.getConstSerialMesh());
         srcmngr_.initDirectPlanewaveEval();
         auto src_sm = static_cast<mfem::SubMesh*>(srcmngr_.getGlobalTFSFSpace()->GetMesh());
         mfem::SubMeshUtils::BuildVdofToVdofMap(*srcmngr_.getGlobalTFSFSpace(), fes_, src_sm->GetFrom(), src_sm->GetParentElementIDMap(), tfsf_sub_to_parent_ids_);
diff --git a/src/evolution/HesthavenEvolutionMethods.cpp b/src/evolution/HesthavenEvolutionMethods.cpp
index fcaa73b..19b74e8 100644
--- a/src/evolution/HesthavenEvolutionMethods.cpp
+++ b/src/evolution/HesthavenEvolutionMethods.cpp
@@ -597,7 +597,7 @@ namespace maxwell {
 
 		std::set<ElementId> sfElements;
 		if (markers.find(BdrCond::TotalFieldIn) != markers.end()) {
-			TotalFieldScatteredFieldSubMesher tfsfSubMesher(model_.getConstMesh(), markers.at(BdrCond::TotalFieldIn));
+			TotalFieldScatteredFieldSubMesher tfsfSubMesher(model_.getConstMesh(), markers.at(BdrCond::TotalFieldIn), &model_.getConstSerialMesh());
 			if (tfsfSubMesher.getSFConstSubMesh() != nullptr) {
 				const auto& sfMap{ tfsfSubMesher.getSFConstSubMesh()->GetParentElementIDMap() };
 				sfElements.insert(sfMap.begin(), sfMap.end());
diff --git a/src/evolution/MaxwellEvolution.cpp b/src/evolution/MaxwellEvolution.cpp
index 1a99bb6..bc38a96 100644
--- a/src/evolution/MaxwellEvolution.cpp
+++ b/src/evolution/MaxwellEvolution.cpp
@@ -59,7 +59,7 @@ MaxwellEvolution::MaxwellEvolution(
 #endif
 
 		if (pd_.model.getTotalFieldScatteredFieldToMarker().find(BdrCond::TotalFieldIn) != pd_.model.getTotalFieldScatteredFieldToMarker().end()) {
-			srcmngr.initTFSFPreReqs(pd_.model.getConstMesh(), pd_.model.getTotalFieldScatteredFieldToMarker().at(BdrCond::TotalFieldIn));
+			srcmngr.initTFSFPreReqs(pd_.model.getConstMesh(), pd_.model.getTotalFieldScatteredFieldToMarker().at(BdrCond::TotalFieldIn), &pd_.model.getConstSerialMesh());
 			auto globalTFSFfes{ srcmngr.getGlobalTFSFSpace() };			
 			Model tfsfModel(*globalTFSFfes->GetMesh(), GeomTagToMaterialInfo(), GeomTagToBoundaryInfo(GeomTagToBoundary{}, GeomTagToInteriorBoundary{}));
 			ProblemDescription tfsfPD(tfsfModel, pd_.probes, pd_.sources, pd_.opts);
diff --git a/src/solver/SourcesManager.cpp b/src/solver/SourcesManager.cpp
index 8400126..c01c67c 100644
--- a/src/solver/SourcesManager.cpp
+++ b/src/solver/SourcesManager.cpp
@@ -106,15 +106,15 @@ void SourcesManager::markDoFSforTForSF(FieldGridFuncs& gfs, bool isTF)
     }
 }
 
-void SourcesManager::initTFSFPreReqs(const ParMesh& m, const Array<int>& marker)
+void SourcesManager::initTFSFPreReqs(const ParMesh& m, const Array<int>& marker, const Mesh* whole_mesh)
 {
-    initTFSFSubMesher(m, marker);
+    initTFSFSubMesher(m, marker, whole_mesh);
     initTFSFSpaces();
 }
 
-void SourcesManager::initTFSFSubMesher(const ParMesh& m, const Array<int>& marker)
+void SourcesManager::initTFSFSubMesher(const ParMesh& m, const Array<int>& marker, const Mesh* whole_mesh)
 {
-    auto sm = TotalFieldScatteredFieldSubMesher(m, marker);
+    auto sm = TotalFieldScatteredFieldSubMesher(m, marker, whole_mesh);
     tfsf_submesher_ = std::move(sm);
 }
 
diff --git a/src/solver/SourcesManager.h b/src/solver/SourcesManager.h
index adea39f..d251bd6 100644
--- a/src/solver/SourcesManager.h
+++ b/src/solver/SourcesManager.h
@@ -12,7 +12,7 @@ public:
     SourcesManager(const Sources&, mfem::ParFiniteElementSpace&, Fields<ParFiniteElementSpace, ParGridFunction>& fields);
 
     FieldGridFuncs evalTimeVarField(const Time, FiniteElementSpace*);
-    void initTFSFPreReqs(const ParMesh&, const Array<int>& marker);
+    void initTFSFPreReqs(const ParMesh&, const Array<int>& marker, const Mesh* whole_mesh = nullptr);
     FiniteElementSpace* getTFSpace() { return tf_fes_.get(); }
     FiniteElementSpace* getSFSpace() { return sf_fes_.get(); }
     FiniteElementSpace* getGlobalTFSFSpace() { return global_tfsf_fes_.get(); }
@@ -35,7 +35,7 @@ public:
 
 private:
 
-    void initTFSFSubMesher(const ParMesh&, const Array<int>& marker);
+    void initTFSFSubMesher(const ParMesh&, const Array<int>& marker, const Mesh* whole_mesh);
     void initTFSFSpaces();
     void setInitialFields(Fields<ParFiniteElementSpace, ParGridFunction>&);
 
-- 
2.43.0


From c92d0c4eae66279cb71ceffc31749b002ddb8628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:11:01 +0000
Subject: [PATCH 44/60] fix: keep both sides of an interior wall in the same
 partition

A wall face whose elements went to different ranks was left out of the
operators, and fields passed through it.
---
 src/driver/driver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index a4f8278..186a9b8 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1327,6 +1327,10 @@ Model buildModel(const json& case_data, const std::string& case_path, const bool
     mfem::Array<int> tfsf_tags = getTFSFTags(case_data);
     mfem::Array<int> sgbc_tags  = getSGBCTags(case_data);
     tfsf_tags.Append(getRecordedSurfaceTags(case_data));
+    // Interior walls are imposed on faces with both of their elements in the same partition.
+    for (const auto& [tag, cond] : att_to_bdr_info.gt2ib) {
+        tfsf_tags.Append(tag);
+    }
 
     if (tfsf_tags.Size() || sgbc_tags.Size()){
         applyPairwiseConstraintsPartitioning(mesh, partitioning, tfsf_tags, sgbc_tags);
-- 
2.43.0


From d85dccddf97b6d40fd04d6b492b08b5cd6a3c602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:15:15 +0000
Subject: [PATCH 45/60] fix: curved elements of first order in the nodal
 operator are taken as straight

---
 src/evolution/HesthavenEvolution.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index 76d6560..0ba46b8 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -211,7 +211,7 @@ void storeFaceInformation(FiniteElementSpace& subFES, HesthavenElement& hestElem
 	}
 }
 
-static bool hasConstantJacobian(Mesh& mesh, const ElementId e)
+static bool hasConstantJacobian(Mesh& mesh, const ElementId e, const double tol)
 {
 	auto trans{ mesh.GetElementTransformation(e) };
 	const auto vertices{ Geometries.GetVertices(mesh.GetElementBaseGeometry(e)) };
@@ -221,7 +221,7 @@ static bool hasConstantJacobian(Mesh& mesh, const ElementId e)
 		trans->SetIntPoint(&vertices->IntPoint(v));
 		DenseMatrix diff(trans->Jacobian());
 		diff -= first;
-		if (diff.MaxMaxNorm() > 1e-8 * first.MaxMaxNorm()) {
+		if (diff.MaxMaxNorm() > tol * first.MaxMaxNorm()) {
 			return false;
 		}
 	}
@@ -246,7 +246,8 @@ std::pair<Array<ElementId>,std::map<ElementId,Array<NodeId>>> initCurvedAndLinea
 		fes   .GetElementDofs(e, elemdofs_p2);
 		MFEM_ASSERT(elemdofs_p1, elemdofs_p2);
 		// Reference matrices only describe affine elements, so bilinear ones are handled as curved.
-		auto isCurved = !hasConstantJacobian(mesh_p1, e);
+		// The nodes of a first order basis do not show the curvature of an element, but its Jacobian does.
+		auto isCurved = !hasConstantJacobian(mesh_p1, e, 1e-8) || !hasConstantJacobian(*fes.GetMesh(), e, tol);
 		for (auto d= 0; d < elemdofs_p1.Size(); d++) {
 			if (std::abs(pos_lin[elemdofs_p1[d]][0] - pos_cur[elemdofs_p2[d]][0]) > tol ||
 				std::abs(pos_lin[elemdofs_p1[d]][1] - pos_cur[elemdofs_p2[d]][1]) > tol ||
-- 
2.43.0


From c290e5988032da32d0efc26912615554bf202b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:15:48 +0000
Subject: [PATCH 46/60] fix: under-integration on curved quadrilaterals and
 hexahedra creates energy

---
 src/components/DGOperatorFactory.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/components/DGOperatorFactory.h b/src/components/DGOperatorFactory.h
index 0027c33..5f51f3f 100644
--- a/src/components/DGOperatorFactory.h
+++ b/src/components/DGOperatorFactory.h
@@ -452,6 +452,10 @@ namespace maxwell
 				int dim = fes_.GetMesh()->Dimension();
 				int adjDeg = (dim - 1) * (meshOrder - 1);
 				int totalOrder = 2 * p - 1 + adjDeg;
+				// On tensor product elements every direction reaches degree 2p + (dim-1)*meshOrder.
+				if (fes_.GetFE(0)->Space() == FunctionSpace::Qk) {
+					totalOrder = 2 * p + (dim - 1) * meshOrder;
+				}
 				auto geomType = fes_.GetMesh()->GetElementGeometry(0);
 				integ->SetIntRule(&IntRules.Get(geomType, totalOrder));
 			}
-- 
2.43.0


From 9618b5c960def122bff0a15312e67512a8ad9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:45:27 +0000
Subject: [PATCH 47/60] fix: probes that ask for zero steps divide by zero

---
 src/driver/driver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 186a9b8..3998b7a 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -743,7 +743,9 @@ Probes buildProbes(const json& case_data)
     // call ProbesManager::recalculateExportSteps() once the real dt is known.
     auto calculate_interval = [&](const json& probe_data) -> int {
         if (probe_data.contains("steps")) {
-            return probe_data["steps"]; // Legacy manual step interval
+            const int steps = probe_data["steps"]; // Legacy manual step interval
+            checkIfThrows(steps >= 1, "The 'steps' of a probe must be at least 1.");
+            return steps;
         }
         else if (probe_data.contains("saves")) {
             int requested_saves = probe_data["saves"];
-- 
2.43.0


From d932fd0222c1029a6e5048725c2aa84e75bbc457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:22 +0000
Subject: [PATCH 48/60] fix: initial fields of more dimensions than the mesh
 read past its points

---
 src/components/Sources.cpp | 4 ++++
 src/driver/driver.cpp      | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/components/Sources.cpp b/src/components/Sources.cpp
index 893b5f9..a5c3fa8 100644
--- a/src/components/Sources.cpp
+++ b/src/components/Sources.cpp
@@ -43,6 +43,10 @@ double InitialField::eval(
 		return 0.0;
 	}
 
+	if (function_->dimension() > p.Size()) {
+		throw std::runtime_error("The dimension of an initial field is larger than that of the mesh.");
+	}
+
 	Position pos(p.Size());
 	Position center(p.Size());
 	center = 0.0;
diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 3998b7a..bb36275 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -385,6 +385,7 @@ std::unique_ptr<InitialField> buildGaussianInitialField(
 	const Source::Polarization& p = Source::Polarization({ 0.0,0.0,1.0 }),
 	const int dimension = 1)
 {
+	checkIfThrows(dimension >= 1 && dimension <= 3, "The 'dimension' of a gaussian initial field must be 1, 2 or 3.");
 	mfem::Vector gaussianCenter(dimension);
 	gaussianCenter = 0.0;
 
-- 
2.43.0


From 79e0cf78d703d47a744461e3794d54dc74b6bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:22 +0000
Subject: [PATCH 49/60] fix: probes outside the mesh read fields of an element
 that does not exist

---
 src/solver/ProbesManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index 13ef239..aa9f264 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -188,6 +188,9 @@ ProbesManager::buildPointProbeCollectionInfo(const PointProbe& p, Fields<ParFini
     fes_.GetParMesh()->FindPoints(pointMatrix, elemIdArray, integPointArray);
     assert(elemIdArray.Size() == 1);
     assert(integPointArray.Size() == 1);
+    if (elemIdArray[0] == -1) {
+        throw std::runtime_error("A probe lies outside the mesh.");
+    }
     FESPoint fesPoints { elemIdArray[0], integPointArray[0] };
 
     return { 
@@ -288,6 +291,9 @@ ProbesManager::buildFieldProbeCollectionInfo(const FieldProbe& p, Fields<ParFini
     fes_.GetParMesh()->FindPoints(pointMatrix, elemIdArray, integPointArray);
     assert(elemIdArray.Size() == 1);
     assert(integPointArray.Size() == 1);
+    if (elemIdArray[0] == -1) {
+        throw std::runtime_error("A probe lies outside the mesh.");
+    }
     FESPoint fesPoints{ elemIdArray[0], integPointArray[0] };
 
     return { fesPoints, getFieldView(p, fields) };
-- 
2.43.0


From ad97346a2c34aa709ef67bcddb66cc86c84aef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:22 +0000
Subject: [PATCH 50/60] fix: surface probes on tags beyond those of the mesh
 write out of bounds

---
 src/solver/ProbesManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index aa9f264..9538755 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -553,6 +553,9 @@ Array<int> buildSurfaceMarker(const std::vector<int>& tags, const ParFiniteEleme
     Array<int> res(fes.GetMesh()->bdr_attributes.Max());
     res = 0;
     for (const auto& t : tags) {
+        if (t < 1 || t > res.Size()) {
+            throw std::runtime_error("A probe is on a tag that is not in the mesh.");
+        }
         res[t - 1] = 1;
     }
     return res;
-- 
2.43.0


From de58c2ff5700ebe1cbee7acd9ae887cdb5d02354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:55:52 +0000
Subject: [PATCH 51/60] fix: interior conditions on exterior faces index a
 missing element in the nodal operator

---
 src/evolution/HesthavenEvolutionMethods.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evolution/HesthavenEvolutionMethods.cpp b/src/evolution/HesthavenEvolutionMethods.cpp
index 19b74e8..0e5ec88 100644
--- a/src/evolution/HesthavenEvolutionMethods.cpp
+++ b/src/evolution/HesthavenEvolutionMethods.cpp
@@ -312,6 +312,9 @@ namespace maxwell {
 	SubMesh assembleInteriorFaceSubMesh(Mesh& m, const FaceElementTransformations& trans, const FaceToGeomTag& attMap)
 	{
 		Array<int> volume_marker;
+		if (trans.Elem2No < 0) {
+			throw std::runtime_error("An interior boundary condition lies on a face with a single element.");
+		}
 		volume_marker.Append(hesthavenMeshingTag);
 		m.SetAttribute(trans.Elem1No, hesthavenMeshingTag);
 		m.SetAttribute(trans.Elem2No, hesthavenMeshingTag);
-- 
2.43.0


From 24c948bfe18ae56e5485cc256bd97ac69d86a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:58:02 +0000
Subject: [PATCH 52/60] fix: two boundary elements on a face index a missing
 face in the nodal operator

---
 src/evolution/HesthavenEvolutionMethods.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/evolution/HesthavenEvolutionMethods.cpp b/src/evolution/HesthavenEvolutionMethods.cpp
index 0e5ec88..9159ba5 100644
--- a/src/evolution/HesthavenEvolutionMethods.cpp
+++ b/src/evolution/HesthavenEvolutionMethods.cpp
@@ -493,9 +493,8 @@ namespace maxwell {
 	const std::map<bool, std::vector<BdrElementId>> assembleInteriorOrTrueBdrMap(const FiniteElementSpace& fes)
 	{
 		std::map<bool, std::vector<BdrElementId>> res;
-		auto f2bdr{ fes.GetMesh()->GetFaceToBdrElMap() };
 		for (auto b{ 0 }; b < fes.GetNBE(); b++) {
-			fes.GetMesh()->FaceIsInterior(f2bdr.Find(b)) ==
+			fes.GetMesh()->FaceIsInterior(fes.GetMesh()->GetBdrElementFaceIndex(b)) ==
 				true ? res[true].push_back(b) : res[false].push_back(b);
 		}
 		return res;
-- 
2.43.0


From faff7e911b69e61d39e3c442502198c3fbb92c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:00:07 +0000
Subject: [PATCH 53/60] fix: meshes of surfaces in space read past the normals
 of their faces

---
 src/driver/driver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index bb36275..6bd592a 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1308,6 +1308,11 @@ Model buildModel(const json& case_data, const std::string& case_path, const bool
         mesh = assembleMesh(assembleLauncherMeshString(case_data["model"]["filename"], case_path));
     }
 
+    checkIfThrows(
+        mesh.Dimension() == mesh.SpaceDimension(),
+        "The elements of the mesh do not fill the space its points span. Meshes of one dimension must lie on the x axis, and those of two on the plane z = 0."
+    );
+
     auto att_to_material{ assembleAttributeToMaterial(case_data, mesh) };
     auto att_to_bdr_info{ assembleAttributeToBoundary(case_data, mesh) };
 
-- 
2.43.0


From 9494b52c09656dd4c51c5ccd74e27ab79a33ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:02:14 +0000
Subject: [PATCH 54/60] fix: elements with different numbers of face nodes are
 read out of bounds in the nodal operator

---
 src/evolution/HesthavenEvolution.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index 0ba46b8..593b916 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -441,6 +441,11 @@ HesthavenEvolution::HesthavenEvolution(ParFiniteElementSpace& fes, Model& model,
 
 		storeFaceInformation(subFES, hestElem);
 
+		// The face nodes of an element are located from its index, so all of them must have the same number.
+		if (connectivity_.global.size() != cmesh->GetNE() * hestElem.fscale.size()) {
+			throw std::runtime_error("The Hesthaven operator needs elements of a single shape, without repeated vertices.");
+		}
+
 		hestElemLinearStorage_[e] = hestElem;
 	}
 	
-- 
2.43.0


From a450ab5ed6602ffa08399ff2ca3545ebd49ecce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:07:13 +0000
Subject: [PATCH 55/60] fix: implicit steps on several ranks solve each share
 on its own and can hang

---
 src/evolution/GlobalEvolution.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index 47293c5..acaf5ba 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -1150,7 +1150,7 @@ void GlobalEvolution::ImplicitSolve(const double dt,
     // For small serial systems (SGBC sub-solver), use cached dense LU
     // factorization. One-time cost: form A as dense + LU factor.
     // Per-solve cost: O(n^2) back-substitution instead of ~30 GMRES iterations.
-    if (nbrDofs == 0 && n <= dense_solve_threshold_) {
+    if (fes_.GetNRanks() == 1 && n <= dense_solve_threshold_) {
         // One-time: form dense copy of globalOperator_
         if (!dense_A_formed_) {
             globalOperator_->ToDenseMatrix(A_dense_);
@@ -1221,7 +1221,7 @@ void GlobalEvolution::ImplicitSolve(const double dt,
             }
         } J(n, std::function<void(const mfem::Vector&, mfem::Vector&)>(applyA_parallel), dt);
 
-        mfem::GMRESSolver gmres;
+        mfem::GMRESSolver gmres(fes_.GetComm());
         gmres.SetOperator(J);
         gmres.SetRelTol(1e-8);
         gmres.SetMaxIter(400);
-- 
2.43.0


From cb009dde12c30a642c68a32c240943a67d2db45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:09:23 +0000
Subject: [PATCH 56/60] fix: mesh files in other formats than Gmsh 2 text are
 rewritten and lost

---
 src/driver/driver.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 6bd592a..105ed01 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1138,7 +1138,16 @@ void fixGmshMesh(const std::string& filepath)
         bool reading_elements = false;
         int element_count_line_idx = -1;
 
+        bool gmsh2_text = false;
         while (std::getline(in, line)) {
+            if (line.find("$MeshFormat") != std::string::npos && header_lines.empty()) {
+                header_lines.push_back(line);
+                if (!std::getline(in, line)) break;
+                double version = 0.0;
+                int binary = 1;
+                std::istringstream(line) >> version >> binary;
+                gmsh2_text = version >= 2.0 && version < 3.0 && binary == 0;
+            }
             if (line.find("$Elements") != std::string::npos && !in_elements) {
                 in_elements = true;
                 header_lines.push_back(line);
@@ -1162,6 +1171,9 @@ void fixGmshMesh(const std::string& filepath)
                 footer_lines.push_back(line);
             }
         }
+
+        // Other formats are left as they are.
+        if (!gmsh2_text) return;
     }
 
     if (element_lines.empty()) return;
-- 
2.43.0


From 336c7dc97896957a5bc7c9de7e7d40ae464cf15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:09:59 +0000
Subject: [PATCH 57/60] fix: a crash or full disk while the mesh file is
 normalised loses the mesh

---
 src/driver/driver.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 105ed01..3985e2f 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1212,12 +1212,30 @@ void fixGmshMesh(const std::string& filepath)
     auto& count_line = header_lines.back();
     count_line = std::to_string(fixed_elements.size());
 
-    // Write back.
-    {
-        std::ofstream out(filepath, std::ios::trunc);
-        for (const auto& l : header_lines) out << l << '\n';
-        for (const auto& l : fixed_elements) out << l << '\n';
-        for (const auto& l : footer_lines) out << l << '\n';
+    std::ostringstream fixed;
+    for (const auto& l : header_lines) fixed << l << '\n';
+    for (const auto& l : fixed_elements) fixed << l << '\n';
+    for (const auto& l : footer_lines) fixed << l << '\n';
+
+    std::ostringstream current;
+    current << std::ifstream(filepath).rdbuf();
+    if (current.str() == fixed.str()) return;
+
+    // Write beside the mesh and rename, so that the mesh is never left half written.
+    const auto target = std::filesystem::canonical(filepath);
+    auto temporary = target;
+    temporary += ".tmp";
+    std::ofstream out(temporary, std::ios::trunc);
+    out << fixed.str();
+    out.close();
+    std::error_code error;
+    if (out) {
+        std::filesystem::permissions(temporary, std::filesystem::status(target).permissions(), error);
+        std::filesystem::rename(temporary, target, error);
+    }
+    if (!out || error) {
+        std::filesystem::remove(temporary, error);
+        throw std::runtime_error("Mesh file " + filepath + " could not be rewritten.");
     }
 }
 
-- 
2.43.0


From 5da94cd9ace2df87805071d3d88a2d04a04aa076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:23:16 +0000
Subject: [PATCH 58/60] fix: probes of cases in small units of length record
 every step

---
 src/components/RCSSurfaceExporter.cpp |  2 +-
 src/solver/ProbesManager.cpp          | 17 +++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/components/RCSSurfaceExporter.cpp b/src/components/RCSSurfaceExporter.cpp
index fc86eb9..2196394 100644
--- a/src/components/RCSSurfaceExporter.cpp
+++ b/src/components/RCSSurfaceExporter.cpp
@@ -154,7 +154,7 @@ void RCSSurfaceExporter::writeSnapshot(double time)
 
 void RCSSurfaceExporter::write(double time, int cycle, double finalTime)
 {
-    bool atEnd = std::abs(time - finalTime) < 1e-8;
+    bool atEnd = std::abs(time - finalTime) <= 1e-8 * finalTime;
     if (!atEnd && cycle % expSteps_ != 0) {
         return;
     }
diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index 9538755..1899593 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -333,7 +333,7 @@ DomainSnapshotDataCollection ProbesManager::buildDomainSnapshotDataCollection(co
 
 void ProbesManager::updateProbe(ExporterProbe& p, Time time)
 {
-    if (std::abs(time - finalTime_) >= 1e-8){
+    if (std::abs(time - finalTime_) > 1e-8 * finalTime_){
         if (cycle_ % p.visSteps != 0) {
             return;
         }
@@ -359,7 +359,7 @@ void ProbesManager::updateProbe(ExporterProbe& p, Time time)
 
 void ProbesManager::updateProbe(FieldProbe& p, Time time)
 {
-    if (std::abs(time - finalTime_) >= 1e-8) {
+    if (std::abs(time - finalTime_) > 1e-8 * finalTime_) {
         if (cycle_ % p.getVisSteps() != 0) {
             return;
         }
@@ -390,7 +390,7 @@ void ProbesManager::updateProbe(FieldProbe& p, Time time)
 
 void ProbesManager::updateProbe(PointProbe& p, Time time)
 {
-    if (std::abs(time - finalTime_) >= 1e-8) {
+    if (std::abs(time - finalTime_) > 1e-8 * finalTime_) {
         if (cycle_ % p.getVisSteps() != 0) {
             return;
         }
@@ -440,7 +440,7 @@ Fields<ParFiniteElementSpace, ParGridFunction> buildFieldsForProbe(const Fields<
 
 void ProbesManager::updateProbe(NearFieldProbe& p, Time time)
 {
-    if (std::abs(time - finalTime_) >= 1e-8) {
+    if (std::abs(time - finalTime_) > 1e-8 * finalTime_) {
         if (cycle_ % p.expSteps != 0) {
             return;
         }
@@ -476,7 +476,7 @@ void ProbesManager::updateProbe(NearFieldProbe& p, Time time)
 
 void ProbesManager::updateProbe(DomainSnapshotProbe& p, Time time)
 {
-    if (std::abs(time - finalTime_) >= 1e-8) {
+    if (std::abs(time - finalTime_) > 1e-8 * finalTime_) {
         if (cycle_ % p.expSteps != 0) {
             return;
         }
@@ -635,8 +635,9 @@ void ProbesManager::recalculateExportSteps(double dt)
 void ProbesManager::updateProbe(MORStateProbe& p, Time time)
 {
     if (p.saves <= 0) return;
-    if (time < p.record_time_start - 1e-12) return;
-    if (time > p.record_time_final + 1e-12) return;
+    const double time_tol = 1e-12 * std::abs(p.record_time_final);
+    if (time < p.record_time_start - time_tol) return;
+    if (time > p.record_time_final + time_tol) return;
 
     auto& ctx = morStateContexts_[&p];
 
@@ -658,7 +659,7 @@ void ProbesManager::updateProbe(MORStateProbe& p, Time time)
 
     if (ctx.save_count >= p.saves) return;
 
-    double tol = (ctx.dt_save > 0.0) ? ctx.dt_save * 1e-6 : 1e-12;
+    double tol = (ctx.dt_save > 0.0) ? ctx.dt_save * 1e-6 : time_tol;
     if (time < ctx.next_save_time - tol) return;
 
     const auto& all_dofs = fields_->allDOFs();
-- 
2.43.0


From 4218186ef57972a38a22005a7a26734668a08f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:23:17 +0000
Subject: [PATCH 59/60] fix: subgridded sheets stand still in cases in small
 units of length

---
 src/evolution/GlobalEvolution.cpp | 2 +-
 src/solver/SolverExtension.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index acaf5ba..04d73b1 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -689,7 +689,7 @@ void GlobalEvolution::Mult(const mfem::Vector& in, mfem::Vector& out) const
         }
 
         // Advance SGBC to stage time using intermediate global fields as ghost data
-        if (!sgbc_all_quiescent && dt_to_stage > 1e-12) {
+        if (!sgbc_all_quiescent && dt_to_stage > 1e-12 * sgbc_step_dt_) {
 #ifdef SEMBA_DGTD_ENABLE_OPENMP
             if (!sgbc_thread_pool_.empty()) {
                 #pragma omp parallel for schedule(dynamic) num_threads(sgbc_omp_threads_)
diff --git a/src/solver/SolverExtension.cpp b/src/solver/SolverExtension.cpp
index c6af5a3..69a5f59 100644
--- a/src/solver/SolverExtension.cpp
+++ b/src/solver/SolverExtension.cpp
@@ -407,7 +407,7 @@ void SGBCWrapper::fillGlobalSGBCVec(const SGBCState& context, mfem::Vector& vec,
 
 void SGBCWrapper::solve(const Time t, const Time dt)
 {
-    if (std::abs(dt) < 1e-9){
+    if (dt == 0.0) {
         return;
     }
 
-- 
2.43.0


From 15fe7dc5cdcead112db14132a01814d0a8fcc868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:26:36 +0000
Subject: [PATCH 60/60] fix: exported views carry the time they were taken at

---
 src/solver/ProbesManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index 1899593..a2bab51 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -344,7 +344,7 @@ void ProbesManager::updateProbe(ExporterProbe& p, Time time)
     auto& pd{ it->second };
 
     pd.SetCycle(cycle_);
-    pd.SetTime(std::round(time * 1e3) / 1e3);
+    pd.SetTime(time);
 
     std::string base_dir = pd.GetPrefixPath() + pd.GetCollectionName();
     std::string cycle_dir = base_dir + "/Cycle" + to_padded_string(cycle_, 6);
-- 
2.43.0

