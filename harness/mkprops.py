import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Segmented particle storage behaves as one growing sequence of records",
"For any history of appending items, reading passes, read-old/write-new passes that keep an arbitrary subset of the items, and setting the item count (zero included), the store holds exactly the items a plain sequence would hold, in the same order and with every field intact, whatever the segment length. The reported item count, the segments handed out by passes, the indices returned by appends, indexed access, and the reported capacity all agree with that sequence and with each other. The Python and the C++ implementations both satisfy this for every particle record type, and neither fails on any such history.",
["histories","configurations"],
"all operation histories over all segment lengths (including 1 and counts that are exact multiples of the segment length) and all four record types",
"the existing tests fill a couple of segments once with one fixed length; histories that mix passes, shrinking, emptying and later growth are never run",
["SegmentedArrayPair_Module.py","cpp/SegmentedArrayPair.h","cpp/Pstruct.h","cpp/segmented_array_pair_solib.cpp"],
[("push_back / add_segment bookkeeping","SegmentedArrayPair_Module.py:push_back, cpp/SegmentedArrayPair.h:push_back"),("in/out swap","init_inout_loop"),("segment iteration","get_next_segment, get_next_out_segment, set_number_of_items")],
[("first_not_full_segment/first_available_offset","end of the stored items","SegmentedArrayPair_Module.py"),("current_segment","iteration cursor","SegmentedArrayPair_Module.py")],
["return values of the storage API"])

p("C02","Moving particles neither loses, duplicates nor alters them",
"Over any sequence of particle advances, every particle present before an advance is afterwards either present exactly once or was removed by a boundary condition that deleted it during that advance, and no other particle appears. Statistical weight, identity number and flags of the survivors are unchanged and their relative order is kept, and the reported particle counts equal the number of particles that can be enumerated. This holds for the Python and C++ movers, charged and neutral species, any number of species, any particle count relative to the storage segment length, and any pattern of deletions, including all particles being deleted and new ones being added later.",
["histories","inputs","configurations"],
"all histories of advances, additions and boundary deletions over all particle counts, segment lengths, species mixes and coordinate systems",
"the tests move a handful of particles with segment length 100, so segment-boundary handling, deletion at boundaries of segments and multi-step loss/duplication are not reached",
["Particle_Module.py","cpp/advance_charged_species_in_E_field_cartesian_x.cpp","cpp/advance_charged_species_in_E_field_cartesian_xy.cpp","cpp/advance_charged_species_in_E_field_spherical_r.cpp","cpp/advance_neutral_species_cartesian_xy.cpp","cpp/advance_neutral_species_cartesian_xyz.cpp","cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp","SegmentedArrayPair_Module.py"],
[("in/out copy with deleted particles dropped","Particle_Module.py:advance_charged_species_in_E_field, advance_neutral_species, and the C++ movers"),("count set at end of loop","set_number_of_items")],
[("unique_ID, weight, bitflags","identity of a particle","particle record")],
["enumeration of the stored particles before and after each advance; boundary-callback log"])

p("C03","Every particle knows the mesh cell that contains it",
"After particles are located on the mesh and after every advance, the cell a particle names is a valid mesh cell that contains its position (up to round-off at facets). The same holds for freshly generated source particles, and a surviving particle is never outside the mesh. The crossing count stored with a particle equals the number of facets its path crossed in that step.",
["inputs","histories","configurations"],
"all particle positions, velocities and step sizes (from sub-cell to many-cell moves), all meshes (1D, 2D, 3D, spherical, stretched, annular) and both movers",
"the tests follow at most a few particles on a few coarse meshes; the containment relation is only sampled at hand-picked end points",
["Particle_Module.py","Dolfin_Module.py","cpp/dolfin_functions.cpp","cpp/MeshEntityArrays.cpp","cpp/advance_charged_species_in_E_field_cartesian_x.cpp","cpp/advance_charged_species_in_E_field_cartesian_xy.cpp","cpp/advance_charged_species_in_E_field_spherical_r.cpp","cpp/advance_neutral_species_cartesian_xy.cpp","cpp/advance_neutral_species_cartesian_xyz.cpp"],
[("facet-by-facet cell walk","mover loops; Dolfin_Module.py:find_facet,is_inside_cell; cpp/dolfin_functions.cpp"),("initial location","Particle_Module.py:compute_mesh_cell_indices")],
[("cell_index","cell containing the particle","particle record")],
["particle records after each advance, compared with independent barycentric coordinates"])

p("C04","Particle advances follow the leapfrog equations of motion",
"One advance changes a particle's velocity by (charge/mass) x timestep x (sum of the electric fields applied to its species at its starting position) and then moves it in a straight line by new velocity x timestep, independently of the mesh, of other particles, and of storage layout. A particle reaching a reflecting boundary continues along the mirror image of its path with its velocity mirrored in the facet, speed unchanged, any number of times within one step; one reaching an absorbing boundary is removed. A field-free species moves ballistically, and switching a field off for a species removes exactly that field's contribution.",
["inputs","configurations","histories"],
"all charges, masses, fields, velocities, step sizes, coordinate systems, meshes, and reflecting/absorbing boundary layouts, for Python and C++ movers",
"tests compare a few particles after one or two steps with hand-computed numbers; reflection combined with many crossings, several species and large moves is not sampled",
["Particle_Module.py","cpp/advance_charged_species_in_E_field_cartesian_x.cpp","cpp/advance_charged_species_in_E_field_cartesian_xy.cpp","cpp/advance_charged_species_in_E_field_spherical_r.cpp","cpp/advance_neutral_species_cartesian_xy.cpp","cpp/advance_neutral_species_cartesian_xyz.cpp","cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp","cpp/Pstruct.h","UserParticles_1D.py","UserParticles_2D_e.py","cpp/UserParticleBoundaryFunctions.h","cpp/UserParticleBoundaryFunctions_2D_e.h","cpp/UPBFs_spherical_r.h"],
[("velocity kick then drift","mover loops"),("reflect_from_surface","cpp/Pstruct.h; user boundary functions")],
[("x,u","phase-space coordinates","particle record")],
["particle records before and after each advance versus an independent ray-tracing integrator"])

p("C05","Python and C++ particle engines give the same results",
"For the same mesh, field, species, particles, boundary conditions and time steps, the Python and the C++ engines produce the same particles: the same survivors in the same order, in the same cells, with the same crossing counts and flags, and with positions and velocities equal to round-off. Recorded trajectories and particle counts are also the same. This holds over any number of steps, so the engine choice is not observable except for speed.",
["inputs","configurations","histories"],
"all inputs accepted by both engines: cartesian x, xy, xyz and spherical r; charged and neutral species",
"each engine is tested separately against a few literals; no test runs the two on the same random input",
["Particle_Module.py","Dolfin_Module.py","cpp/dolfin_functions.cpp","cpp/particle.h","cpp/particle_solib.cpp"],
[("two implementations of each mover","Particle_Module.py and cpp/advance_*.cpp")],
[],["particle records and trajectories of two lock-stepped simulations"])

p("C06","Boundary callbacks: most specific function, once per crossing, right data",
"Whenever a particle crosses a marked facet, exactly one user boundary function is called: the one specific to that boundary and species if the user defined it, else that boundary's default, else the global default; crossing unmarked facets calls nothing. It is called once per crossing, in path order, before the particle leaves that facet, with the particle, its species, the facet crossed, the fraction of the remaining move travelled to reach the facet, and the facet's unit outward normal.",
["inputs","configurations"],
"all combinations of user-defined functions, boundaries and species, and all paths",
"tests cover one or two fixed combinations, and check only the final particle state",
["Particle_Module.py","cpp/ParticleMeshBoundaryConditions.h","cpp/advance_charged_species_in_E_field_cartesian_x.cpp","cpp/advance_charged_species_in_E_field_cartesian_xy.cpp","cpp/advance_neutral_species_cartesian_xyz.cpp","cpp/advance_neutral_species_cartesian_xy.cpp","cpp/advance_charged_species_in_E_field_spherical_r.cpp"],
[("callback table","Particle_Module.py:ParticleMeshBoundaryConditions_C; cpp/ParticleMeshBoundaryConditions.h"),("call at facet crossing","mover loops")],
[("bc_function_dict","(boundary tag, species) -> callback","ParticleMeshBoundaryConditions")],
["log written by monitoring boundary functions supplied by the harness"])

p("C07","Recorded trajectories belong to one particle and tell its true history",
"Each recorded trajectory consists of points of the one particle it was started for, whatever particles are deleted, moved in storage or added meanwhile: at each recording the stored step, time, coordinates, velocities and fields are those of that particle. Points are in order of time; each crossing of a marked boundary adds a point lying on that boundary at the interpolated crossing time, and a deleted particle's trajectory ends with its removal and never grows again. Recording never exceeds its storage nor disturbs other trajectories or the simulation.",
["histories","inputs"],
"all histories of moves, deletions and recordings for all sets of tracked particles, in both engines",
"tests record one or two trajectories for a few steps on one mesh and inspect them loosely",
["RecordedData_Module.py","Particle_Module.py","cpp/particle.h","cpp/advance_charged_species_in_E_field_cartesian_x.cpp","cpp/advance_charged_species_in_E_field_cartesian_xy.cpp","cpp/advance_charged_species_in_E_field_spherical_r.cpp","cpp/advance_neutral_species_cartesian_xy.cpp","cpp/advance_neutral_species_cartesian_xyz.cpp"],
[("index maintenance","Particle_Module.py:update_trajectory_particleId, remove_trajectory_particleId"),("recording","record_trajectory_data, record_trajectory_datum"),("storage","RecordedData_Module.py:Trajectory_C")],
[("particle_index_list, data_list, trajectory_length","which stored particle each trajectory follows and its points","RecordedData_Module.py")],
["trajectory storage after every step versus an identity-keyed shadow history"])

p("C08","Density deposition conserves what it deposits",
"Accumulating number density from particles gives a finite-element source whose total over all basis functions equals the sum of the particle weights, and each particle contributes only to the cell it is in, with the value of each of that cell's basis functions at its position. The cell-wise density (starting from zero) times cell volume, summed over all cells, also equals the sum of the weights. Finite-element contributions are additive over particles, repeated calls and species, and both are independent of particle order. Charge density is the sum over species of charge times number density, and resetting sets the density to the given value everywhere.",
["inputs","configurations"],
"all particle sets (any weights, any count relative to the segment length), meshes and species combinations, Python and C++ storage",
"tests deposit a few particles on two meshes and compare with stored numbers",
["Particle_Module.py","Dolfin_Module.py"],
[("deposition","Particle_Module.py:accumulate_number_density; Dolfin_Module.py:Field_C.interpolate_delta_function_to_dofs/integrate_delta_function_over_cell"),("charge sum","accumulate_charge_density_from_particles")],
[("field values","degrees of freedom","Dolfin_Module.py:Field_C")],
["field values before and after deposition versus an independent barycentric deposition"])

p("C09","Fields seen by particles equal the field in the particle's cell",
"Interpolating an electric field to a set of particles gives each particle the value of the finite-element field at its own position, for any number of particles and any field element in use, leaving the field and the particles unchanged. The Python and C++ interpolators agree to round-off (the C++ one is for fields constant in each cell), and results do not depend on which other particles are present or on earlier calls. A random external field is, for each particle, the field at that particle times one standard-normal number drawn for it, and zero where the field is zero.",
["inputs","configurations"],
"all fields, meshes, particle positions and counts, 1D/2D/3D, piecewise-constant and linear elements",
"tests evaluate one field at a few points",
["Dolfin_Module.py","cpp/dolfin_functions.cpp","cpp/dolfin_functions.h","Particle_Module.py"],
[("interpolation","Dolfin_Module.py:Field_C.interpolate_field_to_points; cpp/dolfin_functions.cpp:interpolate_field_to_points")],
[],["interpolated arrays versus direct evaluation of the finite-element function"])

p("C10","Facet-crossing search returns the first facet crossed",
"For a point in a cell and a displacement, the search returns the first facet of that cell the path crosses, the fraction of the displacement at which it does (between 0 and 1), and that facet's unit outward normal; the point at that fraction lies on the returned facet. When the path ends inside the cell, no facet is reported. The Python and C++ versions agree, and the inside-cell tests of both agree with exact geometry.",
["inputs","configurations"],
"all cells of all meshes, interior starting points or points on facets, and all displacements from tiny to far outside the mesh",
"tests use a few points and displacements on one mesh per dimension",
["Dolfin_Module.py","cpp/dolfin_functions.cpp","cpp/predicates.cpp","cpp/MeshEntityArrays.cpp"],
[("find_facet","Dolfin_Module.py:find_facet; cpp/dolfin_functions.cpp:find_facet"),("is_inside","Dolfin_Module.py:is_inside_cell; cpp/dolfin_functions.cpp:cell_contains_point")],
[],["return values versus an independent half-space intersection oracle"])

p("C11","Mesh connectivity and geometry tables describe the actual mesh",
"On every mesh, each cell's table of neighbours, facets, vertices, facet normals, volume and midpoint describes that cell: neighbours are mutual and share exactly the stated facet, boundary facets have no neighbour, normals are outward unit vectors perpendicular to the facet, volumes are positive and sum to the domain volume. The C++ tables equal the Python tables. Spherical meshes use shell volumes.",
["configurations","inputs"],
"all meshes built by the user-mesh classes or supplied by the user, in 1D, 2D, 3D, cartesian and spherical, uniform and stretched",
"tests print or spot-check a few entries of one small mesh per dimension",
["Dolfin_Module.py","cpp/MeshEntityArrays.cpp","cpp/MeshEntityArrays.h","cpp/mesh_entity_arrays_solib.cpp"],
[("dictionaries","Dolfin_Module.py:compute_cell_entity_indices_dict, compute_cell_neighbors_dict, compute_cell_facet_normals_dict, compute_cell_dict..."),("arrays","cpp/MeshEntityArrays.cpp")],
[],["tables versus a recomputation from raw vertex coordinates and connectivity"])

p("C12","The field solve returns the potential of the given charges and boundaries",
"The solved potential takes the prescribed value on every Dirichlet boundary and satisfies the discrete Poisson equation for the given source on all other degrees of freedom, in cartesian and in spherical-radial coordinates. It is linear in source plus boundary values, independent of earlier solves with the same solver, and independent of which linear solver is selected up to its tolerance; solving does not alter the caller's source. The electric field derived from it is the (negative) gradient of that potential in every cell.",
["inputs","configurations","histories"],
"all source vectors, boundary-value sets, meshes, solver choices, and sequences of solves",
"tests solve a handful of fixed problems and compare a few values or only check that it ran",
["Dolfin_Module.py","UserMesh_y_Fields_FE_XYZ_Module.py","UserMesh_y_Fields_FE2D_Module.py","UserMesh_y_Fields_Spherical1D_Module.py"],
[("assembly, BC application, solve, gradient","Dolfin_Module.py:PoissonSolve_C; UserMesh_y_Fields_*: UserPoissonSolve*_C")],
[],["solution vectors versus an independently assembled system"])

p("C13","Particle output files contain exactly the particles at each write",
"Every write of particle output records all requested attributes of all particles of all species at that moment, each particle once with its own values, species identified, under consecutive step labels with the right time, and earlier writes are never altered; a repeated call within one time step writes nothing more. Once a write has returned, the file on disk holds it, so a run that stops later loses nothing already written. This holds for any number of particles relative to internal buffering, including species that are empty, for any sequence of output files, and writing leaves the particles untouched. Recorded-trajectory files hold exactly the recorded points of each trajectory.",
["histories","crash_points","inputs","configurations"],
"all particle populations, attribute selections, write schedules and segment lengths",
"tests write at most one small file and do not compare its contents with the particles",
["Particle_Module.py","RecordedData_Module.py"],
[("H5Part writer","Particle_Module.py:initialize_particle_output_file, write_particles_to_file"),("trajectory writer","RecordedData_Module.py:write_trajectories_to_files")],
[],["HDF5 file contents read back versus a snapshot taken at the write"])

p("C14","Diagnostics and histories equal a recomputation from the particles",
"Particle counts, the physical number of particles (sum of weights) and the kinetic energy (sum of half weight times mass times speed squared) reported for a species equal those computed directly from the stored particles, for any count relative to storage segments, any history of moves and deletions, and in both engines. Recorded histories hold, point by point, the step, time and value current when each was recorded, never exceed their storage, and asking for diagnostics changes nothing.",
["histories","inputs","configurations"],
"all particle populations and histories, both storage engines, all coordinate systems",
"tests never compute kinetic energy or weighted numbers from a partially filled segment, or after deletions",
["Particle_Module.py","RecordedData_Module.py"],
[("sums","Particle_Module.py:get_species_number, get_species_KE, get_species_particle_count, get_total_particle_count"),("recording","record_history_data; RecordedData_Module.py:History_C")],
[],["returned values versus direct sums"])

p("C15","Particle sources and lists create what was asked for",
"Each firing of a particle source adds, to its species only, the stated number of particles per cell of its region, each located inside the cell it names (one at its midpoint, the others spread over the cell), with weights that add up to the requested density increment times the region's volume, distinct identity numbers, and velocities with the requested drift and thermal spread. It fires only on its scheduled steps and leaves existing particles untouched. Particles created from a user list are stored exactly as listed, in that order.",
["inputs","histories","configurations"],
"all regions, densities, temperatures, drifts, particles-per-cell, schedules and meshes",
"tests create one or two small populations from fixed seeds and compare them with literals or not at all",
["Particle_Module.py","DT_Module.py","Dolfin_Module.py"],
[("create_maxwellian_particles, add_more_particles, create_from_list, initialize_particles","Particle_Module.py"),("region cells","Dolfin_Module.py:CellSet_C, WholeMesh_C, RectangularRegion_C")],
[],["particles added by each call"])

p("C16","The native modules have no memory errors or undefined behaviour",
"Running any valid sequence of calls of the compiled modules (storage, mesh tables, facet search, interpolation, movers, boundary conditions) never reads or writes outside allocated memory, uses freed memory, or executes undefined behaviour, and never aborts the process. This includes empty and exactly full storage segments, particles crossing many cells, deletions, and objects being discarded in any order.",
["inputs","histories","configurations"],
"all valid call sequences over all segment lengths, particle counts and meshes",
"the tests run uninstrumented; out-of-bounds reads of neighbouring heap memory go unnoticed",
["cpp/SegmentedArrayPair.h","cpp/Pstruct.h","cpp/MeshEntityArrays.cpp","cpp/dolfin_functions.cpp","cpp/dolfin_functions_solib.cpp","cpp/particle.h","cpp/advance_charged_species_in_E_field_cartesian_x.cpp","cpp/advance_charged_species_in_E_field_cartesian_xy.cpp","cpp/advance_charged_species_in_E_field_spherical_r.cpp","cpp/advance_neutral_species_cartesian_xy.cpp","cpp/advance_neutral_species_cartesian_xyz.cpp","cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp","cpp/ParticleMeshBoundaryConditions.h"],
[("index arithmetic over raw pointers","cpp/*.cpp, cpp/*.h")],
[],["AddressSanitizer and UndefinedBehaviorSanitizer reports; process exit status"])

p("C17","Cell sets and point location select exactly the cells they describe",
"A rectangular region on a mesh (or, on a one-dimensional mesh, one given by centre and radius) contains exactly the cells whose midpoints lie in it, the whole-mesh region contains every cell once, a region containing no cell is refused, and the volumes and midpoints stored with a region are those of its cells. Locating a point returns a cell that contains it, and points outside the mesh are reported as being in no cell. Setting a field to a value on a region gives that value at every degree of freedom of the region's cells and zero everywhere else; without a region, that value everywhere. Scaling a field or adding a multiple of another changes it by exactly that.",
["inputs","configurations"],
"all region placements (inside, straddling, empty) and points on all meshes",
"tests build one region on one mesh",
["Dolfin_Module.py"],
[("region selection","Dolfin_Module.py:RectangularRegion_C, SphericalRegion_C, WholeMesh_C"),("location","Dolfin_Module.py:compute_cell_index")],
[],["region contents versus direct midpoint tests"])

p("C18","User meshes cover the stated domain and mark the stated boundaries",
"A mesh built from the user's parameters covers exactly the stated domain with the stated number of cells per side (after any stretching or mapping), with every cell non-degenerate. Each named boundary's marker is on exactly the facets lying on that boundary, for particles and for fields alike, and every other facet is unmarked. Invalid or missing mesh parameters are refused.",
["inputs","configurations"],
"all domain sizes, cell counts, diagonals, stretch factors and boundary dictionaries for all three user-mesh classes",
"tests build two or three fixed meshes and mostly plot them",
["UserMesh_y_Fields_FE_XYZ_Module.py","UserMesh_y_Fields_FE2D_Module.py","UserMesh_y_Fields_Spherical1D_Module.py","Dolfin_Module.py"],
[("mesh construction and marking","UserMesh_y_Fields_*_Module.py: UserMesh*_C.create_mesh/constructor")],
[],["marker of every facet versus its geometric position"])
p("C19","A complete run is the same whatever layout, engine or diagnostics are chosen",
"In a complete self-consistent run (advance, record, add particles, write, deposit, solve, repeat), at every step the charge handed to the field solver is the charge of the particles then present, the potential and field are the ones that charge and the boundaries give, and the next advance uses exactly that field. The particles, densities, potentials and histories of the run do not depend on the storage segment length, on the engine (Python or C++), or on whether trajectories, histories and particle output are switched on.",
["histories","configurations","inputs"],
"all sequences of steps with sources, losses and self-consistent fields, for every storage layout, engine and set of diagnostics",
"no test runs the loop of the example programs",
["Particle_Module.py","Dolfin_Module.py","RecordedData_Module.py","SegmentedArrayPair_Module.py","cpp/particle.h","examples/sphere1D/sphere1D.py"],
[("the parts of the time loop","Particle_Module.py:advance_charged_particles_in_E_field, add_more_particles, accumulate_number_density; Dolfin_Module.py:PoissonSolve_C.solve_for_phi, Field_C.multiply_add")],
[],["state of the particles, densities, potential and field after every step of two runs"])
p("C20","Wrong input and runaway particles are reported, not computed with",
"A run is never carried on with input it cannot honour. Each of these ends in an error, while the same input without the fault is accepted: a missing or unknown coordinate system of particles or mesh (for the mesh, at the latest when cell volumes are needed), an engine that is not specified, an unknown kind of initial distribution, a species whose listed particles are missing, a missing particle mesh, a missing name of the output file, an attribute for output that particles do not have, unspecified writing of trajectory files, an unknown kind of dynamics for a trajectory, a region without cells, and a boundary without any function for a species (in the C++ engine when the boundary conditions are set up, in the Python engine at the latest when a particle crosses it). A step in which a particle would cross more facets than MAX_FACET_CROSS_COUNT stops with an error in every mover of both engines; a step in which every particle crosses exactly that many or fewer is carried out.",
["inputs","configurations"],
"all single faults in otherwise valid worlds, and all limits relative to the number of facets a particle crosses",
"no test gives wrong input or reaches the crossing limit",
["Particle_Module.py","Dolfin_Module.py","RecordedData_Module.py","cpp/ParticleMeshBoundaryConditions.h","cpp/advance_charged_species_in_E_field_cartesian_x.cpp","cpp/advance_charged_species_in_E_field_cartesian_xy.cpp","cpp/advance_charged_species_in_E_field_spherical_r.cpp","cpp/advance_neutral_species_cartesian_xy.cpp","cpp/advance_neutral_species_cartesian_xyz.cpp"],
[("checks of input","Particle_Module.py:Particle_C.__init__, initialize_particles, initialize_particle_mesh, check_particle_output_parameters, initialize_particle_output_file; RecordedData_Module.py:Trajectory_C; Dolfin_Module.py:Mesh_C, CellSet_C"),("crossing limit","mover loops: MAX_FACET_CROSS_COUNT"),("boundary functions","ParticleMeshBoundaryConditions")],
[],["outcome (completed, exception, exit status, signal) of the call with and without the fault"])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P: jsonschema.validate(q,s)
print(len(P))
