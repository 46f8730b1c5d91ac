#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording lives in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": s, "meaning": s, "where": files[0]} for s in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Field energy is never created without a source",
 "With no source injecting energy, the discrete electromagnetic energy (permittivity-weighted E plus permeability-weighted H) never grows, whatever the mesh, polynomial order, materials, upwinding and boundary conditions. With centred flux, lossless materials and only perfectly conducting electric or magnetic walls it is exactly conserved by the spatial discretisation. Upwinding, absorbing boundaries and conductivity can only remove energy.",
 ["inputs", "configurations"], "every mesh (segment, triangle, quadrilateral, tetrahedron, hexahedron, also mixed tags and curved), order, material map, boundary map, upwind parameter in [0,1], and every field state",
 "It is an inequality over all field states and configurations; the existing end-to-end tests compare a few final states with 1e-2 tolerances and are blind to a small negative damping.",
 ["src/components/DGOperatorFactory.h", "src/evolution/GlobalEvolution.cpp", "src/evolution/MaxwellEvolution.cpp", "src/evolution/HesthavenEvolution.cpp", "src/mfemExtension/BilinearIntegrators.cpp"],
 [("operator assembly signs and penalty terms", "DGOperatorFactory add*/collect* operators"), ("boundary coefficient tables", "DGOperatorFactory.h bdrCentCoeff/bdrUpwindCoeff"), ("jump integrators", "mfemExtension/BilinearIntegrators.cpp")],
 ["six field components"], ["right-hand side evaluation", "time step loop"])

prop("P02", "Spatial operator is Maxwell's curl equations, exact on polynomials",
 "Applied to continuous polynomial fields of degree up to the scheme's order, the assembled right-hand side equals the analytic Maxwell right-hand side (curl H minus conduction current over permittivity, minus curl E over permeability) in every element away from boundaries that the field does not satisfy. This holds in 1D, 2D and 3D, for every supported element shape, node family, order, upwind parameter, and piecewise-constant material map.",
 ["inputs", "configurations"], "every mesh, element type, order, basis, upwind parameter, material assignment and polynomial field",
 "A wrong sign, missing material factor, or swapped component in one block only shows for particular field components, element shapes or material combinations that no sampled case exercises.",
 ["src/components/DGOperatorFactory.h", "src/evolution/GlobalEvolution.cpp", "src/mfemExtension/BilinearIntegrators.cpp", "src/mfemExtension/IntegratorFunctions.cpp"],
 [("directional derivative blocks", "DGOperatorFactory directional operator"), ("flux blocks", "DGOperatorFactory one/two/zero normal operators"), ("inverse mass with material", "DGOperatorFactory inverse mass operator")],
 ["six field components"], ["right-hand side evaluation"])

prop("P03", "Boundary conditions act as the physical walls they name",
 "A perfect electric (magnetic) wall, on the outside or in the interior of the mesh, forces the tangential electric (magnetic) trace like an image field and lets nothing through; an absorbing wall transmits a normally incident outgoing wave without reflection and injects nothing. The condition applies to exactly the faces carrying its tag and to no other face.",
 ["inputs", "configurations"], "every mesh, boundary tag map, order, upwind parameter and field state",
 "Each condition is a handful of coefficients used per tag, per field and per side; tests touch a few standard cases and not every combination of tag, side, dimension and flux.",
 ["src/components/DGOperatorFactory.h", "src/components/Model.cpp", "src/mfemExtension/BilinearIntegrators.cpp", "src/mfemExtension/BilinearForm_IBFI.cpp"],
 [("boundary coefficient tables", "DGOperatorFactory.h"), ("interior boundary integrator", "mfemExtension/BilinearForm_IBFI.cpp"), ("marker arrays", "components/Model.cpp")],
 ["six field components"], ["right-hand side evaluation"])

prop("P04", "All evolution formulations compute the same time derivative",
 "For a problem supported by several evolution formulations (single assembled operator, matrix-per-term operator, element-by-element nodal operator), they return the same time derivative for every field state, to rounding. The evolution operator written to disk for model-order reduction is the one that is applied.",
 ["inputs", "configurations"], "every vacuum problem accepted by the formulations, every mesh, boundary map, order, upwind parameter and field state",
 "Differential agreement must hold for all states and configurations; the tests compare single hand-computed matrices or one final state.",
 ["src/evolution/GlobalEvolution.cpp", "src/evolution/MaxwellEvolution.cpp", "src/evolution/HesthavenEvolution.cpp", "src/evolution/HesthavenEvolutionMethods.cpp", "src/components/DGOperatorFactory.h"],
 [("global sparse operator", "evolution/GlobalEvolution.cpp"), ("per-term operators", "evolution/MaxwellEvolution.cpp"), ("nodal operator and connectivity maps", "evolution/HesthavenEvolution*.cpp")],
 ["six field components"], ["right-hand side evaluation"])

prop("P05", "Time derivative is a pure linear function; runs are repeatable",
 "Evaluating the time derivative does not modify its input, does not depend on what was evaluated before, and is linear in the state when no source is active. An implicit stage of any length gives the derivative of the state it leads to, whatever steps were solved before. Building and running the same case again, or splitting one run into several shorter runs of whole steps, gives the same fields and probe records.",
 ["histories", "inputs", "configurations"], "every sequence of evaluations, states, evaluation times, repeated constructions and run splits",
 "Hidden state left in work vectors or caches only matters for particular call sequences.",
 ["src/evolution/GlobalEvolution.cpp", "src/evolution/MaxwellEvolution.cpp", "src/evolution/HesthavenEvolution.cpp", "src/solver/Solver.cpp"],
 [("work vectors and caches", "evolution/*.cpp Mult"), ("step loop", "solver/Solver.cpp")],
 ["work vectors", "source caches"], ["right-hand side evaluation", "run()/step()"])

prop("P06", "Runs advance monotonically and end exactly at the final time",
 "A run starts at time zero, every step advances time by the configured step except a possibly shorter last one, and it ends exactly at the requested final time for every positive step and final time. An automatically chosen step is positive, proportional to the CFL factor, and small enough for the explicit integrator to remain stable on the given mesh and order. Negative orders, negative final times and non-positive CFL factors are rejected before any step is done.",
 ["inputs", "configurations"], "every final time, user or automatic time step, CFL factor, mesh size/shape and order",
 "Floating-point accumulation of time steps depends on the particular quotient of final time and step; stability depends on mesh and order.",
 ["src/solver/Solver.cpp", "src/solver/SolverOptions.h"],
 [("time loop and step truncation", "solver/Solver.cpp run/step"), ("automatic step", "solver/Solver.cpp estimateTimeStep/getMinimumInterNodeDistance"), ("option validation", "solver/Solver.cpp checkOptionsAreValid")],
 ["time", "dt"], ["step loop"])

prop("P07", "Total-field/scattered-field injection is exact and one-sided",
 "In an empty region enclosed by a total-field surface the injected plane wave appears inside with its prescribed amplitude, polarisation, direction and delay, and the field outside stays at discretisation-error level. Several injected waves superpose linearly, and the injected field acts only through elements touching the surface.",
 ["inputs", "configurations"], "every incident direction, polarisation, pulse, mesh, order, upwind parameter, and number of simultaneous incident waves",
 "Leakage depends on direction, polarisation and which side each face's first element lies on; the sampled cases use axis-aligned single waves.",
 ["src/solver/SourcesManager.cpp", "src/components/SubMesher.cpp", "src/evolution/GlobalEvolution.cpp", "src/evolution/MaxwellEvolution.cpp", "src/components/Sources.cpp"],
 [("total/scattered side sign", "solver/SourcesManager.cpp"), ("submesh construction", "components/SubMesher.cpp"), ("source term in the right-hand side", "evolution/*.cpp")],
 ["six field components"], ["right-hand side evaluation", "probe records"])

prop("P08", "Analytic sources are physical waves with the requested parameters",
 "Every plane-wave source evaluates, at every point and time, to a transverse travelling wave: E parallel to the requested polarisation, H equal to direction cross E, equal magnitudes in vacuum, and the same waveform shifted by distance travelled along the direction. A dipole source satisfies the free-space Maxwell equations away from its centre, and initial fields reproduce the requested spatial function, polarisation and centre. Directions and polarisations of any non-zero length are normalised, so amplitude does not depend on the length they were written with; vectors without a direction (zero, infinite or not-a-number) are rejected. (The transverse relations are claimed for a polarisation orthogonal to the direction.)",
 ["inputs"], "every waveform, spread, centre, frequency, direction, polarisation, point and time",
 "The wave relations are identities over continuous inputs; tests evaluate a few points.",
 ["src/components/Sources.cpp", "src/components/Sources.h", "src/math/Function.h", "src/components/Spherical.cpp"],
 [("plane-wave and dipole evaluation", "components/Sources.cpp"), ("waveform functions", "math/Function.h")],
 None, ["source evaluation"])

prop("P09", "Probes record the true field at the requested place and times",
 "A point or field probe reports the value of the discrete solution at its position, at the first and last instant and once per requested interval in between, with strictly increasing times, and never for a position owned by another part of the mesh. Probe output does not change the solution. Files written by probes contain the same values with times converted to seconds.",
 ["inputs", "histories", "configurations"], "every probe position (including element borders), recording interval, number of probes, and run length",
 "Recording schedules depend on step counts and floating-point end conditions; positions on shared faces are corner cases.",
 ["src/solver/ProbesManager.cpp", "src/components/Probes.h"],
 [("probe update schedule", "solver/ProbesManager.cpp updateProbes"), ("point location", "solver/ProbesManager.cpp constructors"), ("file writers", "solver/ProbesManager.cpp")],
 ["probe movies", "cycle counter"], ["after every step"])

prop("P10", "A case file is translated faithfully into the configured problem",
 "Each value of a valid case file (solver options, materials, boundaries, probes, sources) reaches the constructed problem unchanged except for the documented unit conversions, and omitted optional entries take their documented defaults. A case file missing an entry the run cannot be defined without, with an unknown keyword value where a choice is required, or with inconsistent naming is rejected with an error instead of running something else.",
 ["inputs"], "every syntactically valid case file and every mutation of it",
 "The space of case files is combinatorial; the tests parse a few files.",
 ["src/driver/driver.cpp", "src/solver/SolverOptions.h", "src/components/Probes.h", "src/components/Model.cpp"],
 [("JSON translation", "driver/driver.cpp build*"), ("defaults", "solver/SolverOptions.h")],
 None, ["objects returned by the case builder"])

prop("P11", "Mesh partitioning keeps coupled elements together and loses none",
 "For every mesh and rank count, each element is assigned to exactly one existing rank. The two elements on either side of a total-field or subgridded-conductor face are always placed on the same rank, and the elements outside such groups are distributed so no rank is overloaded while others are idle.",
 ["inputs", "configurations"], "every mesh, coupled-face set (including chains sharing elements) and rank count",
 "Grouping is transitive: failures need chains of coupled faces and particular initial partitions.",
 ["src/driver/driver.cpp"],
 [("coupled pair collection", "driver/driver.cpp buildTwoElementPairsByTagToSort"), ("union-find assignment", "driver/driver.cpp applyPairwiseConstraintsPartitioning")],
 ["partitioning array"], ["partitioning array after construction"])

prop("P12", "Materials and boundary roles follow the geometry tags exactly",
 "Every element sees exactly the permittivity, permeability and conductivity declared for its tag (vacuum when undeclared), and every boundary tag takes exactly its declared role: exterior and interior roles are kept apart, tags without a declaration get no role, and source surfaces are not treated as walls. Declarations for tags the mesh does not have are reported as errors or have no effect.",
 ["inputs", "configurations"], "every mesh, tag numbering (sparse, unordered, repeated) and declaration map",
 "Marker arrays are indexed by tag minus one and sized by the largest tag, so failures need unusual tag layouts.",
 ["src/components/Model.cpp", "src/components/Model.h"],
 [("marker construction", "components/Model.cpp"), ("material vectors", "components/Model.cpp build*PiecewiseVector")],
 ["marker maps"], ["model queries"])

prop("P13", "Subgridded thin conductors couple consistently and race-free",
 "A thin layered sheet inside the domain treated by subgridding reflects and transmits like the same stack of layers, for any orientation of its faces in space, with the layers running along the normal of its boundary elements whatever the numbering of the mesh. Its response is linear in the fields, the energy around it never grows, and a sheet backed by a perfect conductor on both sides acts as that wall. Its internal state is saved and restored so that evaluating intermediate integrator stages leaves no trace, and the result is identical for every thread count with no data race.",
 ["schedules", "histories", "inputs", "configurations"], "every layer stack, face orientation, stage sequence, thread count and interleaving",
 "Stage rollback and thread schedules cannot be enumerated by unit tests.",
 ["src/solver/SolverExtension.cpp", "src/solver/SolverExtension.h", "src/evolution/GlobalEvolution.cpp"],
 [("state load/save", "solver/SolverExtension.cpp"), ("parallel loop over wrappers", "evolution/GlobalEvolution.cpp"), ("face rotation", "solver/SolverExtension.cpp buildFaceRotationMatrix")],
 ["sub-solver states", "ghost values"], ["each stage and each step"])

prop("P14", "Far-field transformation obeys its physical identities",
 "The radiation pattern computed from surface fields is linear in the fields, transforms under translation by a pure phase, gives the known pattern for a known radiator, and radiates nothing for a source-free incident wave crossing a closed surface. The time-to-frequency transform recovers amplitude and phase of every requested frequency, and radar cross section is never negative. It does not depend on how densely the record was sampled in time or on a direction or frequency being requested twice, nor on the number of threads and their schedule, and a case without an incident plane wave is rejected.",
 ["inputs", "schedules"], "every surface mesh, field record, frequency and observation angle",
 "Identities over continuous inputs; the regression tests compare a few plots.",
 ["src/components/FarField.cpp", "src/components/RCSManager.cpp", "src/components/RCSSurfacePostProcessor.cpp", "src/mfemExtension/LinearIntegrators.cpp", "src/math/Function.h"],
 [("frequency transform", "components/FarField.cpp, components/RCSSurfacePostProcessor.cpp"), ("surface integrals", "components/FarField.cpp, components/RCSSurfacePostProcessor.cpp")],
 None, ["far-field results"])

prop("P15", "Recorded surface data round-trips and merges across ranks",
 "Surface records written during a run and read back by the post-processor contain the same snapshots, positions, normals and weights. Splitting the same records over any number of rank files gives the same far field, and a truncated, empty or inconsistent file is reported or its incomplete tail ignored, never silently used as data. A run on any number of ranks records every part of the surface once, all from the same side, whether or not every rank holds part of it.",
 ["inputs", "crash_points", "configurations"], "every number of snapshots, points, rank splits, and truncation point of a file",
 "Every byte offset is a possible crash point of the writer.",
 ["src/components/RCSSurfaceExporter.cpp", "src/components/RCSSurfacePostProcessor.cpp", "src/components/RCSManager.cpp", "src/components/ProbesManager.cpp", "src/driver/driver.cpp"],
 [("binary writer", "components/RCSSurfaceExporter.cpp"), ("binary reader", "components/RCSSurfacePostProcessor.cpp readRankData")],
 ["files"], ["reader results"])

prop("P16", "Surface-impedance fits are stable and truthfully reported",
 "A pole-residue fit of the surface impedance of a layer that is reported stable has only finite, non-growing poles, as many poles and residues as its order, and a reported error equal to the largest relative deviation between the model and the impedance of the layer over the requested band. The least order that meets the tolerance is returned, otherwise the best stable one, so allowing more poles never makes the answer worse. When no stable fit exists, or the input is malformed (no layer, width or band not positive and finite, fewer than two points), the call reports failure instead of a model.",
 ["inputs"], "every conductor, layer thickness, frequency band, pole count and sampling",
 "Quantified over continuous material and frequency inputs.",
 ["src/components/SIBCPoleResidueFitting.cpp", "src/components/SIBCPoleResidueFitting.h"],
 [("vector fitting", "components/SIBCPoleResidueFitting.cpp")],
 None, ["fit result"])

prop("P17", "No memory error or undefined behaviour on any accepted input",
 "Whatever case file, mesh, recorded surface file, or sequence of public operations the programs are given, they never read or write out of bounds, use freed or uninitialised memory, or execute undefined arithmetic. Malformed inputs end in a reported error.",
 ["inputs", "histories"], "every input file and operation sequence",
 "Memory errors are silent in ordinary tests and depend on sizes and contents.",
 ["src/driver/driver.cpp", "src/components/RCSSurfacePostProcessor.cpp", "src/components/SubMesher.cpp", "src/solver/ProbesManager.cpp", "src/components/DGOperatorFactory.h"],
 [("all parsing, indexing and buffer code", "src/**")],
 None, ["sanitizer reports"])

prop("P18", "Materials are always physical and derived quantities consistent",
 "A material can only be created with relative permittivity and permeability of at least one and non-negative conductivity; everything else, including not-a-number, is rejected. Impedance, admittance and wave speed derived from a lossless material are mutually consistent and independent of how it was constructed; asking them of a conductive material is rejected rather than answered with a lossless value.",
 ["inputs"], "every triple of floating-point values",
 "Boundary values, infinities and not-a-number are outside the sampled points.",
 ["src/components/Material.cpp", "src/components/Material.h"],
 [("constructor validation", "components/Material.cpp"), ("derived quantities", "components/Material.cpp/.h")],
 None, ["material accessors"])

prop("P19", "Physical constants and unit conversions are mutually consistent",
 "The constants of each unit system satisfy the relations between light speed, permittivity, permeability and impedance, and every quantity entering or leaving the program in SI units (time, frequency, conductivity, probe intervals) converts to natural units and back without loss.",
 ["inputs"], "every quantity crossing the unit boundary",
 "The tests check constants singly, not the conversions at each crossing.",
 ["src/math/PhysicalConstants.h", "src/driver/driver.cpp", "src/solver/ProbesManager.cpp", "src/components/RCSManager.cpp"],
 [("constants", "math/PhysicalConstants.h"), ("conversions", "driver/driver.cpp, solver/ProbesManager.cpp")],
 None, ["values at unit crossings"])

prop("P20", "Total-field side labelling is complete, two-sided and geometric",
 "For every surface separating the total-field from the scattered-field region, every element touching the surface through a face is labelled, the two elements of one surface face always get opposite labels, and no other element is labelled. In 3D the label of an element depends only on the side of the closed surface it geometrically lies on, regardless of element, vertex or face numbering; in 2D the lower-numbered element of each face is on the scattered side (the documented element-order convention); in 1D the region between the two points (or beyond the single point) is the total-field region. The original mesh and its tags are left as they were.",
 ["inputs", "configurations"], "every mesh, numbering permutation and closed or open source surface",
 "Labelling depends on vertex order per face, so failures need particular permutations.",
 ["src/components/SubMesher.cpp"],
 [("side assignment", "components/SubMesher.cpp setIndividualTFSFAttributesForSubMeshing*"), ("attribute restoration", "components/SubMesher.cpp")],
 ["element attributes"], ["submesh contents"])

prop("P21", "Exporting touches only the case's own output folders",
 "Preparing and writing results for a case creates, replaces or deletes files only inside that case's own export folder for the current run mode (and the ParaView and operator folders carrying the name of its exporter and of the case). Results of other cases and of other run modes, and everything outside the export folder, stay untouched for every case name. (Loading a case deliberately normalises its own .msh file; that is not exporting.)",
 ["inputs", "histories"], "every case name, run mode, pre-existing folder content and repetition of runs",
 "Destructive behaviour depends on names and on what previous runs left behind.",
 ["src/driver/driver.cpp", "src/solver/ProbesManager.cpp", "src/components/RCSSurfaceExporter.cpp"],
 [("folder cleanup", "driver/driver.cpp prepareExportDirectories"), ("path assembly", "solver/ProbesManager.cpp")],
 ["file system"], ["directory tree before/after"])

prop("P22", "Automatic source delay and frequency content are conservative",
 "When the delay of an injected pulse is left to the program, the pulse is negligible at every element of the total-field surface at time zero, with the fixed margin of five widths and no more, for every direction, position and extent of that surface. The highest source frequency used for automatic subgridding is never lower than that of any declared source.",
 ["inputs"], "every direction, spread, frequency, mesh bounding box and number of sources",
 "Depends on the projection of every mesh corner on every direction.",
 ["src/driver/driver.cpp"],
 [("automatic mean", "driver/driver.cpp buildSources"), ("maximum frequency", "driver/driver.cpp calculateMaximumSourceFrequency")],
 None, ["constructed sources"])

prop("P23", "Coordinate, rotation and matrix conversions preserve values",
 "Converting vectors between Cartesian and spherical components, rotating to and from a face frame, and converting between matrix representations are exact inverses of each other and preserve lengths and dot products, for all directions including the axes and the origin. Cross products, projections and normals have the geometric sign and size.",
 ["inputs"], "every vector, angle and matrix",
 "Singular directions (poles, axes, origin, parallel vectors) are measure-zero in samples.",
 ["src/components/Spherical.cpp", "src/math/Calculus.h", "src/math/Geometry.cpp", "src/math/EigenMfemTools.h", "src/solver/SolverExtension.cpp"],
 [("spherical conversion", "components/Spherical.cpp"), ("vector calculus", "math/Calculus.h"), ("rotation", "math/Geometry.cpp, solver/SolverExtension.cpp")],
 None, ["function results"])

prop("P24", "Results do not depend on the number of ranks",
 "Running a case on any number of processes gives the same fields and probe records as the single-process run, up to rounding and to the injected values below 1e-8 that each rank leaves out, for every partition of the mesh, explicit and implicit time integration, and with waves, walls and thin sheets anywhere.",
 ["configurations", "schedules"], "every rank count, partition and case",
 "Ghost-layer layout depends on the partition; tests run on one rank.",
 ["src/evolution/GlobalEvolution.cpp", "src/components/DGOperatorFactory.h", "src/solver/ProbesManager.cpp", "src/driver/driver.cpp"],
 [("ghost exchange", "evolution/GlobalEvolution.cpp"), ("column layout with neighbour block", "components/DGOperatorFactory.h")],
 ["ghost values"], ["right-hand side evaluation", "probe records"])

prop("P25", "Loading a case keeps its mesh and its mesh file",
 "Loading a case gives the elements and faces of the mesh file with their corners and geometric tags, on any number of ranks. A Gmsh 2 text file may be rewritten in normal form only: entities more than one dimension below the mesh may be dropped, elements are numbered consecutively and carry their geometric tag; nodes, elements, faces, their order and all other sections stay, and loading again changes nothing. Files of other formats are left byte for byte. A crash, a full disk or a missing permission at any moment leaves the old or the new file, never a part of it, and loading never goes on with another mesh.",
 ["inputs", "crash_points", "schedules", "fault_sequences"], "every mesh file, every moment of a crash or failed write, every number of ranks",
 "The user's mesh is rewritten in place on every run; tests load a few well-formed files and never fail while writing.",
 ["src/driver/driver.cpp"],
 [("normalisation of the mesh file", "driver/driver.cpp fixGmshMesh"), ("loading on ranks", "driver/driver.cpp assembleMesh")],
 ["mesh file"], ["mesh of the model", "mesh file"])

prop("P26", "Results do not depend on the unit of length",
 "The same problem written in another unit of length (every length and every time of mesh, sources, sheets, probes and solver multiplied by the same factor, from nanometres to kilometres, conductivities and frequencies divided by it) gives the same fields, the same automatic time step in that unit, the same probe rows, snapshots and state records at the same instants, and cross sections that grow with the area, up to rounding.",
 ["inputs", "configurations"], "every case and every factor",
 "Tolerances and thresholds written as absolute lengths or times act only at sizes the tests do not use; all tests are near unit size.",
 ["src/solver/ProbesManager.cpp", "src/solver/Solver.cpp", "src/solver/SolverExtension.cpp", "src/evolution/GlobalEvolution.cpp", "src/evolution/HesthavenEvolution.cpp", "src/components/SubMesher.cpp", "src/components/RCSSurfacePostProcessor.cpp"],
 [("time of the last record", "solver/ProbesManager.cpp updateProbe"), ("advance of a sheet to a stage", "evolution/GlobalEvolution.cpp Mult"), ("comparison of positions", "evolution/HesthavenEvolutionMethods.cpp")],
 ["fields", "records"], ["whole run", "right-hand side evaluation", "far-field evaluation"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
