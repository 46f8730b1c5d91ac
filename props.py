"""What decides each property: harnesses, the /repo sources they link, how cases are made."""
ASSUMPTIONS = [
    "The finite element library is replaced by the stand-in in /verif/shim (validated against the upstream test suite); real MFEM is not installed here.",
    "Holds for the executions observed; inputs not generated are not covered.",
]

MATERIAL = ["components/Material"]

EMSRC = "all"

PROPS = {
    "P01": {
        "harnesses": [{"src": "p01_energy.cpp", "cfg": "plain"}],
        "rule": "Seeded problems (mesh, order, materials, walls, upwinding, operator, integrator); distinct by problem description. For small operators the quantification over states is exhausted through the eigenvalues of the symmetrised operator observed column by column.",
        "technique": "runtime monitor of the discrete energy balance of observed right-hand sides and time steps",
        "note": "Sampled meshes and configurations; all states for operators up to 300 unknowns, random and localised states beyond.",
    },
    "P02": {
        "harnesses": [{"src": "p02_operator.cpp", "cfg": "plain"}],
        "rule": "Seeded meshes, orders, node families, upwinding, material maps and polynomial fields; distinct by the full problem description.",
        "technique": "runtime monitor comparing right-hand sides with analytic Maxwell derivatives",
        "note": "Sampled meshes and fields; elements with boundary faces are judged by P03.",
    },
    "P03": {
        "harnesses": [{"src": "p03_walls.cpp", "cfg": "plain"}],
        "rule": "Seeded meshes, materials, orders, formulations and wall combinations; distinct by problem description.",
        "technique": "runtime monitor comparing a wall with image fields on the doubled mesh, interior walls with separate boxes, absorbing walls with outgoing waves, and locality of each tag",
        "note": "Sampled problems; each judged on random states, so any wrong coefficient on a face shows.",
    },
    "P04": {
        "harnesses": [{"src": "p04_agreement.cpp", "cfg": "plain"}],
        "rule": "Seeded problems supported by two formulations (mesh, order, materials, walls, upwinding, injected waves) and field states; distinct by problem description.",
        "technique": "differential runtime monitor between the evolution operators, and between the exported operator file and the applied operator",
        "note": "Sampled problems and states; the nodal operator is compared on vacuum problems, the only ones it supports. The export is compared to the six digits the file holds.",
    },
    "P05": {
        "harnesses": [{"src": "p05_purity.cpp", "cfg": "plain"}],
        "rule": "Seeded problems, states, evaluation histories (other states, times and operators in between), run splits and interleavings; distinct by problem description.",
        "technique": "runtime monitor comparing repeated, interleaved and split evaluations and runs bit by bit",
        "note": "Sampled problems and call sequences; splits by final time are compared to 1e-9 because step sums round differently.",
    },
    "P06": {
        "harnesses": [{"src": "p06_time.cpp", "cfg": "plain"}],
        "rule": "Seeded pairs of step and final time in six relations to each other; seeded meshes, orders and operators for the automatic step; distinct by those values.",
        "technique": "runtime monitor of the simulated clock, and of the amplification of the applied operator over all its eigenvectors",
        "note": "Stability is judged for every state of operators up to 500 unknowns, up to a CFL factor of 1 (segments), 0.55 (triangles), 0.7 (quadrilaterals), 0.6 (tetrahedra; nodal operator 0.35), 0.8 (hexahedra; nodal operator 0.45); failures at the default factor are listed findings.",
    },
    "P07": {
        "harnesses": [{"src": "p07_tfsf.cpp", "cfg": "plain"}],
        "rule": "Seeded meshes with a closed total-field surface, orders, formulations, upwinding and sets of incident waves; distinct by problem description.",
        "technique": "runtime monitor comparing right-hand sides and runs with the analytic incident wave",
        "note": "Polynomial waves are representable, so injection is judged to rounding; pulses in whole runs to discretisation accuracy.",
    },
    "P08": {
        "harnesses": [{"src": "p08_sources.cpp", "cfg": "asan", "sources": ["components/Spherical", "components/Sources"]}],
        "rule": "Seeded directions, polarisations, lengths, waveforms, positions in 1-3 coordinates and times; distinct by parameter set.",
        "technique": "runtime monitor evaluating sources against closed forms and finite-difference Maxwell residuals, ASan",
        "note": "Sampled parameters; differential equations checked to finite-difference accuracy.",
    },
    "P09": {
        "harnesses": [{"src": "p09_probes.cpp", "cfg": "plain", "cpu": 1500, "wall": 840}],
        "rule": "Every record of a point, field, snapshot, near-field, view or state probe is an evaluation; it is non-trivial when a probe of a distinct element shape, place in the element, schedule and length recorded at least one frame.",
        "technique": "Runtime monitor: the fields are captured after every step of the real solver and the movies and files of every probe are compared with an independent location and evaluation; recording cycles are checked against the requested interval; a twin run without probes must give identical bits; forked ranks on random partitions must record each position exactly once.",
        "note": "Element shapes, orders, positions (interior, face, corner), intervals (steps, saves), run lengths including empty runs and partial last steps, and 2-4 ranks are sampled; MFEM is replaced by the stand-in in shim/.",
    },
    "P10": {
        "harnesses": [{"src": "p10_case.cpp", "cfg": "plain"}],
        "rule": "Seeded case files (options, materials, boundaries, layer stacks, probes, sources) and systematic removals and corruptions of their entries; distinct by case text.",
        "technique": "runtime monitor comparing every constructed object with the case text, and a fault injector on the case text",
        "note": "Sampled case files in one and two dimensions; README is the reference for names, units and defaults.",
    },
    "P11": {
        "harnesses": [{"src": "p11_partition.cpp", "cfg": "plain"}],
        "rule": "Seeded meshes, coupled-face sets (scattered, chains, closed boxes, sheets), tag lists, starting distributions and 1-40 ranks; models built by up to 6 forked ranks; distinct by problem description.",
        "technique": "runtime monitor on the distribution after construction, and on the shares built by forked ranks",
        "note": "The generic partitioner is the stand-in's; ranks are processes on one machine.",
    },
    "P12": {
        "harnesses": [{"src": "p12_tags.cpp", "cfg": "plain"}],
        "rule": "Seeded problems and their copies with other tag numbers, omitted and surplus declarations; distinct by problem description.",
        "technique": "metamorphic runtime monitor on the assembled operators and marker maps",
        "note": "Sampled problems; tags up to 300.",
    },
    "P13": {
        "harnesses": [{"src": "p13_sheet.cpp", "cfg": "plain"}, {"src": "p13_sheet.cpp", "cfg": "tsan", "support": ["gomp"]}],
        "rule": "Seeded stacks of one or two layers in one or two sheets, every element shape, random rotation and renumbering; stage histories with random extra evaluations; thread counts 1 to 6 with injected delays; distinct by shape, sheets, sense, history and thread count.",
        "technique": "runtime monitor comparing pulse spectra with the exact transmission matrix of the stack and integrator histories bit for bit, and ThreadSanitizer on an OpenMP runtime with injected delays",
        "note": "Sheets across a bar; interior sheets with explicit integrators. The spectra are compared to 0.05, the other relations to rounding.",
    },
    "P14": {
        "harnesses": [{"src": "p14_farfield.cpp", "cfg": "asan"}, {"src": "p14_farfield.cpp", "cfg": "tsan", "support": ["gomp"]}],
        "rule": "Seeded surfaces (closed, open, all element shapes), records, directions and frequencies, aimed directions through surface points; distinct by shape, order and identity.",
        "technique": "runtime monitor comparing the computed far field with an independent quadrature of the recorded fields and with physical identities, under AddressSanitizer; ThreadSanitizer on an OpenMP runtime with injected delays for its threads",
        "note": "Sampled records on small surfaces; the reference quadrature is the harness's own.",
    },
    "P15": {
        "harnesses": [{"src": "p15_surface.cpp", "cfg": "plain"}, {"src": "p15_surface.cpp", "cfg": "asan", "tag": "reader", "hflags": "-DREADER -Wno-unused-function"}],
        "rule": "Seeded runs with surface probes on one and several forked ranks, records split over folders, files cut at every boundary and at random bytes, files that do not belong together; distinct by shape, split and cut position.",
        "technique": "runtime monitor on the written records and on the reader's results, with injected truncation and corruption (reader under AddressSanitizer)",
        "note": "Elements of either side of a surface are numbered contiguously, as mesh generators do; the older folder format over several ranks is a known finding.",
    },
    "P16": {
        "harnesses": [{"src": "p16_sibc.cpp", "cfg": "asan", "sources": ["components/SIBCPoleResidueFitting", "components/Material"], "shim": []}],
        "rule": "Seeded conductors, dielectrics and lossy layers, bands, grids, orders and tolerances; exactly representable impedances; malformed inputs by kind; distinct by parameter set.",
        "technique": "runtime monitor recomputing the deviation of each returned model in extended precision, ASan",
        "note": "Layers of one material (the fit models a stack by its first material). Conjugate symmetry of the poles is not claimed: the code fits positive frequencies only, and its own tests expect unpaired poles.",
    },
    "P19": {
        "harnesses": [{"src": "p19_constants.cpp", "cfg": "san", "sources": [], "shim": []}, {"src": "p19_units.cpp", "cfg": "plain"}],
        "rule": "Every constant; seeded values over 60 decades for the conversions; seeded conductivities, frequencies, steps and final times through the case reader, probe files and statistics; distinct by value.",
        "technique": "runtime monitor of the constants against their defined values and of every SI quantity entering or leaving a run",
        "note": "Constants are judged to 5e-10 (the accepted vacuum constants differ by 2e-10), file output to the digits written.",
    },
    "P20": {
        "harnesses": [{"src": "p20_sides.cpp", "cfg": "asan"}],
        "rule": "Seeded surfaces (boxes, elongated and bulged boxes, caps, arbitrary regions in the plane, points) on every element shape under random numbering; distinct by mesh and surface description.",
        "technique": "runtime monitor comparing the element labels of the real sub-mesher with the geometric side, under ASan",
        "note": "Three-dimensional surfaces are convex (or caps of convex ones), as the code documents.",
    },
    "P21": {
        "harnesses": [{"src": "p21_exports.cpp", "cfg": "plain"}],
        "rule": "Seeded histories of runs over awkward case names, run modes (one process and forked ranks), probe sets and leftovers of other runs; distinct by name, mode and probe count.",
        "technique": "file-system monitor: contents of the whole tree before and after every run, as an unprivileged user in a scratch folder",
        "note": "Probe names without path separators; GPU run mode not available here.",
    },
    "P22": {
        "harnesses": [{"src": "p22_delay.cpp", "cfg": "plain"}],
        "rule": "Seeded surfaces (place, size, rotation), directions, widths and source lists; distinct by case text.",
        "technique": "runtime monitor evaluating the built sources on every surface element at the start time",
        "note": "Surface elements are judged at their centres, as the delay is defined by them.",
    },
    "P23": {
        "harnesses": [{"src": "p23_conversions.cpp", "cfg": "asan", "sources": ["components/Spherical", "math/Geometry", "components/SubMesher", "components/Material"]}],
        "rule": "Axis, near-axis and branch-threshold directions plus seeded random directions, magnitudes, matrices and meshes; distinct by input value.",
        "technique": "runtime monitor on the conversion functions and on face geometry of generated meshes, ASan",
        "note": "Sampled directions over 24 decades of length, every axis and branch neighbourhood, five element shapes with random numbering.",
    },
    "P24": {
        "harnesses": [{"src": "p24_ranks.cpp", "cfg": "plain"}],
        "rule": "Seeded problems on every element shape run on 2-4 forked ranks under block, striped and scattered distributions, and through the case reader with waves, walls, sheets and probes; distinct by shape, operator, distribution and rank count.",
        "technique": "runtime comparison of every degree of freedom and every record of runs on forked ranks with the single run",
        "note": "Message passing is the shim's forked-process stand-in; distributions of waves, walls and sheets are the case reader's own.",
    },
    "P17": {
        "harnesses": [{"src": "p17_memory.cpp", "cfg": "san", "flags": "-DNDEBUG", "tag": "ndebug"}],
        "rule": "Seeded problems through every operator; random whole cases on one and several ranks; case files with entries removed, retyped and exchanged; mesh files with numbers, sections and elements changed; surface records cut and changed; distinct by description and outcome.",
        "technique": "AddressSanitizer and UndefinedBehaviorSanitizer over the real sources, built without assertions, with storage poisoned by NaN and every access to the stand-in containers checked",
        "note": "Built without assertions, as users build, so that none stands in for a missing test. Numbers in changed files stay within what an int can count. The library behind the mesh reader is a stand-in that refuses broken files as the real one does.",
    },
    "P18": {
        "harnesses": [{"src": "p18_material.cpp", "cfg": "san", "sources": MATERIAL, "shim": []}],
        "rule": "Seeded parameter triples across magnitudes, each limit value and its floating-point neighbours, every non-finite class; non-trivial when the triple differs from vacuum.",
        "technique": "runtime monitor on the Material class, ASan+UBSan",
        "note": "Sampled parameters including all boundary neighbours and NaN payloads.",
    },
    "P25": {
        "harnesses": [{"src": "p25_meshfile.cpp", "cfg": "asan"}],
        "rule": "Seeded meshes of five shapes, straight and of second order, written as meshers write them; files of other formats; loading cut off by a signal or a full disk after a random number of bytes; one to four ranks with delays; distinct by description.",
        "technique": "runtime monitor comparing the mesh in use and every line of the file with what the harness wrote, fault injection, ASan",
        "note": "Crashes are those of the program, not of the machine: the order in which the system brings data and names to disk is not observed.",
    },
    "P26": {
        "harnesses": [{"src": "p26_scale.cpp", "cfg": "plain"}],
        "rule": "Seeded problems on every element shape, straight and curved, run at unit size and at a factor between 1e-9 and 1e6; operators, automatic steps, waves, sheets, every kind of record, far fields; distinct by shape, kind and factor.",
        "technique": "runtime comparison of twin executions in two units of length, field by field and record by record",
        "note": "Factors are powers of two, so that rounding plays no part in the comparison; sizes of fields are not changed.",
    },
}

NOT_APPLICABLE = {}
NOTES = "No hooks are compiled into /repo: every monitor observes public behaviour of the unmodified sources, built against the stand-in libraries in shim/."
