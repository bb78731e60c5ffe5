"""The properties, and how each is claimed.  gen_docs.py turns this into properties.jsonl and MANIFEST.json."""
CATALOG = []
NOT_APPLICABLE = []
NOTES = ('Specification language: TLA+ checked with TLC. check.py <id> [--thorough] builds the C++ modules from '
         '$VERIF_REPO (default /repo) into /verif/.build, runs the real code under drivers (harness/), and lets TLC '
         'check design models, generate behaviours that are replayed into the code, and validate recorded traces (spec/).')


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['hook_needed'] = None
    CATALOG.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext},
                        why_tests_cant=why, anchors=a, technique=technique, level_note=note))


SAPF = ['SegmentedArrayPair_Module.py', 'cpp/SegmentedArrayPair.h', 'cpp/segmented_array_pair_solib.cpp', 'cpp/Pstruct.h']
SAPT = 'TLA+ model checked with TLC; TLC-generated histories replayed into the code; recorded histories validated against the spec'
SAPN = ('Every history of the generator up to its depth is executed on the Python and the four C++ storages and every '
        'observable compared with the specification; random longer histories are validated as traces. Assumes the numpy/pybind11 '
        'views are faithful; segment lengths 1-16, items up to a few hundred.')
prop('S01', 'The particle storage is an exact growable sequence',
     'For any history of appends, bulk additions, element reads and writes and truncations, the particle storage of a species '
     'holds exactly the items put in, in order, each readable at the index that was returned for it, and the reported item '
     'count is their number. The segment length and the number of full segments never show in these results.',
     ['histories', 'configurations'], 'all operation histories, segment lengths, Python and C++ storages',
     'The tests fill one or two segments with one fixed history; boundaries between segments are reached by a few counts only.',
     SAPF, [('push_back / push_back_multiple', 'SegmentedArrayPair_Module.py'), ('get_segment_and_offset', 'SegmentedArrayPair_Module.py'),
            ('SegmentedArrayPair', 'cpp/SegmentedArrayPair.h')], SAPT, SAPN,
     ['push_back', 'get_item', '__getitem__', 'get_number_of_items'])
prop('S02', 'Loops over stored particles visit every item exactly once',
     'A loop over the segments of a species yields the stored items in order, each exactly once, with no unused slot, for any '
     'number of items including zero and exact multiples of the segment length, and can be stopped and restarted at any point. '
     'Looping changes nothing that later operations can observe.',
     ['histories', 'configurations'], 'all histories in which complete and interrupted loops are mixed with updates',
     'Tests loop once over storages of a few sizes and do not interrupt loops or append after them.',
     SAPF, [('init_out_loop, get_next_segment', 'SegmentedArrayPair_Module.py'), ('get_next_segment', 'cpp/SegmentedArrayPair.h')],
     SAPT, SAPN, ['init_out_loop', 'get_next_segment', 'get_next_out_segment'])
prop('S03', 'A copy-and-compact pass keeps exactly the surviving items',
     'A pass that reads every stored item and writes the surviving, possibly changed, items to the other half of the storage '
     'leaves exactly the survivors, in their original order, with the reported count and capacity to match, however many items '
     'are dropped and wherever segment boundaries fall. Successive passes alternate the two halves without leaking stale items.',
     ['histories', 'configurations'], 'all keep/drop patterns, pass sequences and segment lengths',
     'Tests exercise one pass with a fixed deletion pattern; carry-over between the two halves needs several passes with growth and shrinkage.',
     SAPF, [('init_inout_loop, get_next_segment, swap', 'SegmentedArrayPair_Module.py'), ('init_inout_loop', 'cpp/SegmentedArrayPair.h')],
     SAPT, SAPN, ['init_inout_loop', 'get_next_segment', 'get_next_out_segment', 'set_number_of_items', 'get_capacity'])

PF = ['Particle_Module.py', 'cpp/advance_charged_species_in_E_field_cartesian_x.cpp', 'cpp/advance_charged_species_in_E_field_cartesian_xy.cpp',
      'cpp/advance_charged_species_in_E_field_spherical_r.cpp', 'cpp/advance_neutral_species_cartesian_xy.cpp',
      'cpp/advance_neutral_species_cartesian_xyz.cpp', 'cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp', 'Dolfin_Module.py', 'cpp/dolfin_functions.cpp']
PT = ('TLA+ specification of exact particle paths and of the bookkeeping of a step, model checked with TLC (MoverMC: every move in a box against the '
      'unfolded path; PlasmaMC: every history of a small simulation); TLC-generated schedules executed by the real code (PlasmaGen), and simulations of the '
      'real code (Python and C++) on integer-lattice meshes validated event by event against the specification (PlasmaTrace)')
PN = ('Random and swept simulations on integer-lattice meshes (1D, spherical radial, 2D, 3D; random numbering, offsets, scales and segment '
      'lengths), where the exact path of each particle is an integer computation the specification makes itself; each event of the real code is compared '
      'with it. Degenerate paths (through an edge or vertex, ending exactly on a facet) are not generated.')
MV = [('advance_charged_species_in_E_field', 'Particle_Module.py'), ('advance_neutral_species', 'Particle_Module.py'),
      ('advance_charged_species_in_E_field_*', 'cpp/'), ('advance_neutral_species_*', 'cpp/')]
prop('M01', 'An advance neither loses, duplicates nor alters particles',
     'Advancing a species in time keeps exactly the particles that no boundary function removed: each appears once, in the order it had, '
     'with its own identity, weight and flags. Species that are not advanced, and all other species, are left untouched. This holds for any number '
     'of particles and any pattern of removals, whatever the storage segment length, for charged and neutral, Python and C++ advances.',
     ['histories', 'configurations'], 'all particle populations, meshes, fields, removal patterns and segment lengths, over many steps',
     'Tests advance a handful of particles in one or two segments; loss at a segment boundary needs particular counts and removals.',
     PF, MV + [('SegmentedArrayPair', 'SegmentedArrayPair_Module.py')], PT, PN, ['advance_charged_particles_in_E_field', 'advance_neutral_particles', 'advance_charged_species_in_uniform_fields'])
prop('M02', 'A step adds the force at the particle and moves it by its new velocity',
     'In one step of length dt every component of a charged particle\'s velocity changes by (q/m) E dt, where E is the field at its starting point (solved '
     'field plus external field, each only if it applies to the species), and its position then changes by the new velocity times dt. Neutral particles keep their velocity. '
     'With accel_only the velocity changes and the position does not. After the move the saved starting point is the last point at which the straight path entered '
     'the current cell (or the initial position when no facet was crossed).',
     ['configurations', 'histories'], 'all fields, masses, charges, positions, velocities, dt, and field-selection flags',
     'Tests use a couple of particles in one field with one charge-to-mass ratio and one dimension per test.',
     PF, MV + [('interpolate_field_to_points', 'Dolfin_Module.py'), ('interpolate_field_to_points', 'cpp/dolfin_functions.cpp')], PT, PN)
prop('M03', 'After every step a particle is in the cell it is labelled with',
     'After each advance the cell index stored with a particle is that of the mesh cell that contains its position, and the '
     'stored number of facet crossings is the number of facets its path crossed in that step, however many cells the step spans and '
     'whatever the numbering, shape or position of the mesh, also after reflections.',
     ['configurations', 'histories'], 'all meshes, start points and step lengths',
     'Tests follow a few particles on one mesh each; a wrong neighbor or facet shows only for particular cells and directions.',
     PF, MV + [('find_facet', 'Dolfin_Module.py'), ('find_facet', 'cpp/dolfin_functions.cpp'), ('is_inside_cell', 'cpp/dolfin_functions.cpp'),
               ('cell_neighbors_dict, cell_entity_indices_dict', 'Dolfin_Module.py')], PT, PN)
prop('M04', 'Each boundary crossing calls the most specific function, once and in order',
     'Whenever a particle\'s path crosses a facet with a nonzero boundary marker, exactly one boundary function is called: bc_at_<boundary>_for_<species> if '
     'defined, else default_bc_at_<boundary>, else default_bc. Calls come in the order of the crossings along the path, with the facet index, '
     'its outward unit normal, the fraction of the remaining move at the crossing, the crossing point and the remaining move vector. Unmarked facets call nothing.',
     ['configurations', 'histories'], 'all sets of boundary functions, facet markings, species and paths',
     'Tests have one set of functions and one or two crossings; precedence and multi-crossing order depend on the combination.',
     PF, [('ParticleMeshBoundaryConditions_C', 'Particle_Module.py'), ('ParticleMeshBoundaryConditions', 'cpp/ParticleMeshBoundaryConditions.h')] + MV, PT,
     PN + ' C++ boundary functions cannot be logged, so for them dispatch is decided through the outcome (absorbed or reflected).')
prop('M05', 'Reflection is specular and keeps the particle inside the mesh',
     'A particle that meets a reflecting boundary has its velocity component along the facet normal reversed and the others unchanged, and its position continues '
     'along the mirrored path: the end point is the mirror image, in the facet plane, of where the particle would have gone. It stays in the mesh, keeps its speed, and may be reflected several times in one step.',
     ['configurations', 'histories'], 'all paths with any number of reflections, all facet orientations the reflecting functions support',
     'Tests reflect one particle from one wall; repeated reflection within a step needs particular geometry.',
     PF + ['cpp/UserParticleBoundaryFunctions.h', 'cpp/UserParticleBoundaryFunctions_2D_e.h'], MV + [('reflection', 'cpp/')], PT,
     PN + ' The reflecting functions are the ones shipped with the repository, at facets whose mirror images stay on the lattice.')
prop('M06', 'Absorbed particles, and only they, disappear at once',
     'A particle that an outer boundary function marks for deletion is gone from its species after the same advance and never reappears, and no '
     'particle that was not so marked disappears or appears. Counts, totals and later advances, histories and output agree with this.',
     ['histories'], 'all histories of advances with absorption and creation',
     'Tests delete particles once, in one pattern; reappearance of stale entries needs deletion, growth and reuse of segments.',
     PF, MV + [('DELETE_FLAG', 'Particle_Module.py'), ('set_number_of_items', 'SegmentedArrayPair_Module.py')], PT, PN)
TF = ['Particle_Module.py', 'RecordedData_Module.py', 'cpp/']
prop('T01', 'A trajectory follows one particle for its whole life',
     'Each trajectory belongs to one tracked particle, identified by its unique ID, and keeps following that particle when deletions move it in storage, until the particle is removed; '
     'then the trajectory is closed and never follows another particle. Every tracked particle has exactly one trajectory; advances, sources and recording never add or drop one otherwise.',
     ['histories'], 'all histories of advances, deletions, creation and recording, all segment lengths',
     'Tests track one or two particles with few deletions; an index mix-up needs deletions before the tracked one in a particular segment.',
     TF, [('update_trajectory_particleId', 'Particle_Module.py'), ('remove_trajectory_particleId', 'Particle_Module.py'), ('create_trajectory', 'RecordedData_Module.py')] + MV, PT, PN)
prop('T02', 'A trajectory records every requested point in time order, within capacity',
     'Recording adds, for each live tracked particle, one record of the current step with its time, position, velocity and field, at most once per step; an advance adds one record '
     'for each marked facet crossed, at the crossing point and time, and one final record when the particle is removed. Records are never reordered or overwritten; '
     'a trajectory that is full stops growing without disturbing the others or the simulation.',
     ['histories'], 'all histories of recording and advancing, all capacities',
     'Tests record short fixed runs that never fill a trajectory.',
     TF, [('record_trajectory_datum', 'Particle_Module.py'), ('record_trajectory_data', 'Particle_Module.py'), ('remove_trajectory_particleId', 'Particle_Module.py'), ('Trajectory_C', 'RecordedData_Module.py')], PT, PN)
prop('T03', 'Trajectory files hold exactly what was recorded',
     'Writing the trajectories creates one file per trajectory, named by species and unique ID, that contains every record of that trajectory in order, each with its time and all recorded quantities, and the species\' mass and charge.',
     ['histories'], 'all recorded histories', 'Tests write one file and do not read it back.',
     ['RecordedData_Module.py'], [('write_trajectories_to_files', 'RecordedData_Module.py')], PT, PN)
prop('C01', 'Particle sources fire exactly on schedule and only add',
     'At each step every particle source whose interval divides the step number is invoked exactly once, in the order given, with the step, time, region, parameters and fields of the call; the others are not. '
     'Adding particles appends them after the existing ones and changes nothing else.',
     ['histories', 'configurations'], 'all sets of sources, intervals and step sequences', 'Tests call one source on one step.',
     ['Particle_Module.py', 'Source_Module.py'], [('add_more_particles', 'Particle_Module.py'), ('particle_source_dict', 'Particle_Module.py')], PT, PN)
prop('C02', 'Listed initial particles are stored as given',
     'Particles supplied in a list are stored unchanged and in order, for any number of particles, and each one flagged for tracking gets exactly one trajectory that starts empty and follows it.',
     ['configurations'], 'all lists, all segment lengths', 'Tests supply two or three particles.',
     ['Particle_Module.py'], [('create_from_list', 'Particle_Module.py')], PT, PN)
prop('H01', 'Particle histories report the true totals at each recorded step',
     'Each recorded history row holds the step, the time, and for every species the macroparticle count and the kinetic energy (half mass times weighted sum of squared speed over exactly the live particles), the per-physical-particle values and the sums over species, '
     'computed from the particles present at that moment; recording changes no particle and earlier rows stay as they were.',
     ['histories'], 'all populations and recording schedules', 'Tests do not compare histories with the particles.',
     ['Particle_Module.py', 'RecordedData_Module.py'], [('record_history_data', 'Particle_Module.py'), ('get_species_KE', 'Particle_Module.py'), ('get_species_number', 'Particle_Module.py'),
                                                     ('ParticleHistory_C', 'RecordedData_Module.py')], PT, PN)
prop('O01', 'Output-file snapshots equal the particles at the time of writing',
     'The output file has one group per step written, numbered in order, with the simulation time and, for each requested attribute, the values of all particles of all species in storage order; a step is written once even if requested twice, '
     'the header describes each species, and after the closing write the file is complete and readable by others. Writing changes no particle.',
     ['histories', 'configurations'], 'all write schedules, attribute selections and populations', 'Tests write small files and do not read them back.',
     ['Particle_Module.py'], [('write_particles_to_file', 'Particle_Module.py'), ('initialize_particle_output_file', 'Particle_Module.py')], PT, PN)

prop('O02', 'Output already written survives the loss of the process',
     'As soon as a write of the particle output returns, everything written so far is in the file: if the process is lost at any later point without closing it, what is on disk is a readable file with the header and every snapshot '
     'written until then, each complete.',
     ['crash_points', 'histories'], 'all write schedules and all points between writes at which the process may be lost', 'Tests close every file before looking at it, if they look at all.',
     ['Particle_Module.py'], [('write_particles_to_file', 'Particle_Module.py'), ('initialize_particle_output_file', 'Particle_Module.py')], PT,
     PN + ' The loss is simulated by copying the open file and reading only the copy; loss of the operating system is not considered.')
prop('M07', 'A move that cannot be completed stops the run',
     'An advance in which a particle would cross more facets than the allowed number, or would leave the mesh through a facet where nothing removes or reflects it, stops the run with an error; no other advance does. '
     'In particular a particle is never silently kept outside the mesh, dropped, or left in a wrong cell.',
     ['inputs', 'configurations'], 'all meshes, markings, boundary functions, moves and limits, Python and C++', 'No test exceeds the limit or leaves the mesh without a boundary function.',
     PF, MV + [('MAX_FACET_CROSS_COUNT', 'DT_Module.py')], PT, PN + ' Each such advance runs in a process of its own.')
SF = ['Particle_Module.py', 'RecordedData_Module.py', 'Dolfin_Module.py', 'SegmentedArrayPair_Module.py', 'cpp/Pstruct.h']
ST = 'TLA+ specification of valid inputs and of the simulation they describe, checked with TLC; set-ups recorded from the real code validated against it'
SN = 'Random inputs, valid and invalid, in the four coordinate systems; the specification decides which are valid and what follows.'
prop('K01', 'A simulation starts out as its input describes',
     'Building the particles from an input gives the named species in order, numbered from one, each with its charge, mass and their ratio, classified as charged or neutral by its charge, with empty storage; a charge given to a species declared neutral is ignored. The attributes of a particle are the coordinates of the '
     'coordinate system, their starting values, the velocities, and weight, flags, cell, identity and crossings, and a stored particle has each value under its own name, the same in the Python and the C++ storage.',
     ['configurations'], 'all coordinate systems, species sets, charges, masses, precisions and storages', 'Tests build one or two inputs and look at some of the results.',
     SF, [('Particle_C.__init__', 'Particle_Module.py'), ('ParticleSpecies_C', 'Particle_Module.py'), ('Pstruct', 'cpp/Pstruct.h')], ST, SN)
prop('E01', 'Invalid inputs are refused and valid ones are not',
     'An unknown or missing coordinate system, a missing choice of integrators, an output attribute that particles do not have, a missing output file or mesh, an unknown type of trajectory, a missing choice about trajectory files, or an unknown mesh coordinate system '
     'is refused with an error before any computation; every input without such a fault is accepted.',
     ['inputs', 'configurations'], 'all inputs of these kinds', 'Tests only use valid inputs.',
     SF, [('check_particle_output_parameters, initialize_particle_mesh, initialize_particle_output_file, __init__', 'Particle_Module.py'), ('Trajectory_C', 'RecordedData_Module.py'), ('Mesh_C', 'Dolfin_Module.py')], ST, SN)
prop('H02', 'Recorded data never outgrow or overflow their storage',
     'For any number of steps and any requested maximum number of points, the interval between recordings and the room reserved for histories and trajectories fit: recording the initial state and every such step of a full run fits in the room, '
     'and the room is no more than the maximum asked for (plus the extra points asked for boundary crossings); every step is recorded if that fits, and otherwise more than half of the maximum is used.',
     ['configurations'], 'all numbers of steps, maxima and extra points', 'Tests never set a maximum number of points.',
     SF, [('History_C.__init__', 'RecordedData_Module.py'), ('Trajectory_C.__init__', 'RecordedData_Module.py'), ('ParticleHistory_C', 'RecordedData_Module.py')], ST, SN)

GF = ['Dolfin_Module.py', 'cpp/dolfin_functions.cpp', 'cpp/MeshEntityArrays.h']
GT = ('TLA+ specification of simplicial meshes with integer vertices (facets, neighbours, normals, volumes, shape functions computed from the vertex tuples), '
      'model checked with TLC (MeshMC: tiling, shape functions, first facets, regions, deposits on every lattice point and move); its meshes, points and moves replayed into the real code (MeshGen) '
      'and answers recorded from the real code (Python and C++) validated against it (MeshTrace, FieldTrace)')
GN = ('Random integer-lattice meshes in 1D, spherical radial, 2D and 3D with random numbering, removed cells, offsets and scales; everything expected is an integer '
      'computation the specification makes itself from the vertices and cells.')
prop('G01', 'Mesh tables describe the mesh: facets, neighbours, normals, volumes',
     'For every cell, the tables that particle movers rely on (vertices of a cell, cells at a vertex, the facets and the neighbour across each facet, the outward unit normal of each facet, the cell volume or '
     'spherical shell volume) agree with the geometry of the mesh, in Python and in C++: neighbours are mutual, the outside of a boundary facet is reported as no cell, and volumes are positive whatever the numbering.',
     ['inputs'], 'all meshes of intervals, triangles or tetrahedra, any vertex and cell numbering and orientation',
     'Tests look at a few entries of box meshes with the standard numbering.',
     GF, [('Mesh_C', 'Dolfin_Module.py'), ('compute_cell_dict, compute_cell_facet_normals_dict, compute_cell_neighbors_dict, compute_cell_volume_dict', 'Dolfin_Module.py'), ('MeshEntityArrays', 'cpp/MeshEntityArrays.h')], GT, GN)
prop('G02', 'A point is located in a cell that contains it, or in none',
     'The cell index computed for a point is that of a cell that contains the point; a point outside the mesh is never given a cell. The test whether a point lies in a given cell '
     'is true exactly for the points of the closed cell, in Python and in C++.',
     ['inputs'], 'all meshes and points, including points on facets and vertices and points in holes of the mesh',
     'Tests locate a few points in box meshes.',
     GF, [('compute_cell_index', 'Dolfin_Module.py'), ('is_inside_cell', 'Dolfin_Module.py'), ('is_inside_vertices', 'cpp/dolfin_functions.cpp')], GT, GN)
prop('G03', 'The facet found is the first one the path crosses',
     'For a straight move that starts in a cell, find_facet() reports a facet of the cell that the move reaches first, the fraction of the move at which it is reached, between 0 and 1, '
     'and the outward unit normal of that facet; if the move ends inside the cell it reports no facet and fraction 1. Python and C++ agree.',
     ['inputs'], 'all cells, starting points inside the cell and move vectors, including moves that reach two facets at once',
     'Tests cross a few facets of a few cells, from the midpoint.',
     GF, [('find_facet', 'Dolfin_Module.py'), ('find_facet_*', 'cpp/dolfin_functions.cpp')], GT,
     GN + ' Moves that slide along the facet they start on are not generated.')
prop('R01', 'A region holds exactly the cells whose midpoints lie in it',
     'A rectangular region consists of exactly the cells whose midpoints lie between its two corners, and the whole-mesh region of all cells, each once, in agreement between the cell list, the index list and the count; the '
     'midpoint, volume and radius kept for each cell are those of that cell, and every point of the cell is within the radius of the midpoint. A region without cells is refused.',
     ['inputs'], 'all meshes and all corner points', 'Tests build one region on one mesh.',
     ['Dolfin_Module.py'], [('CellSet_C, RectangularRegion_C, WholeMesh_C', 'Dolfin_Module.py')], GT, GN)
prop('F02', 'Field arithmetic and interpolation act on exactly the values they name',
     'Setting, scaling, adding and randomising a mesh field changes the values of the named field in the named region as asked, zeroes the rest where documented, and touches no other field. Interpolating a field to points '
     'gives, for each point, the field of the cell the point is in (cell fields) or the shape-function average of the vertex values (vertex fields), for exactly as many points as given.',
     ['histories', 'inputs'], 'all sequences of field operations, all field types, meshes, regions and points',
     'Tests interpolate one field at two or three points and set fields to constants.',
     ['Dolfin_Module.py', 'cpp/dolfin_functions.cpp'], [('Field_C', 'Dolfin_Module.py'), ('interpolate_field_to_points', 'Dolfin_Module.py'), ('interpolate_field_to_points_*', 'cpp/dolfin_functions.cpp')], GT, GN)
prop('D01', 'Deposition conserves particle weight and charge',
     'Accumulating the density of a species adds to the vertex values exactly the sum over its live particles of weight times shape function at the particle, so that the total added equals the total weight; the cell density '
     'adds weight over volume of the cell; the charge density adds charge times number density of every species. Nothing is lost, counted twice or taken from unused storage, and no other field changes.',
     ['inputs', 'configurations'], 'all populations, positions within cells (also on facets and vertices), weights, meshes, segment lengths, Python and C++',
     'Tests deposit a few particles on one mesh and compare a total or a plot.',
     ['Particle_Module.py', 'Dolfin_Module.py', 'cpp/dolfin_functions.cpp'],
     [('accumulate_number_density', 'Particle_Module.py'), ('accumulate_charge_density_from_particles', 'Particle_Module.py'), ('interpolate_delta_function_to_dofs, add_weight_to_cell', 'Dolfin_Module.py'), ('accumulate_charge_density', 'Particle_Module.py')], GT, GN)
prop('C03', 'Created particles fill the region with the requested plasma',
     'Creating Maxwellian particles over a region adds the requested number per cell in every cell of the region and nowhere else, each inside the cell it is assigned to, with weights that add up to density times cell volume, '
     'new consecutive unique IDs, initial position equal to position, no crossings, and the drift velocity plus a spread of the thermal speed. Existing particles and other species are untouched; '
     'tracked ones get one trajectory that starts with their position, velocity and the fields.',
     ['configurations'], 'all meshes, regions, densities, numbers per cell, drifts, temperatures, segment lengths, Python and C++ storages',
     'Tests create particles in one region and count them.',
     ['Particle_Module.py'], [('create_maxwellian_particles', 'Particle_Module.py'), ('sap_dict[].push_back', 'SegmentedArrayPair_Module.py')], GT,
     GN + ' The velocity distribution is only checked for its drift, its 12-sigma range and, with 100 particles or more, its variance within a factor of three.')
prop('C04', 'Every initial particle group is created once, in order',
     'Initialising the particles invokes the creation function of each entry of the initial-particle dictionary exactly once, in order, with step and time zero and the region, parameters and field given for it; an unknown distribution type is refused.',
     ['configurations'], 'all dictionaries of initial particles', 'Tests initialise from one listed entry.',
     ['Particle_Module.py'], [('initialize_particles', 'Particle_Module.py')], GT, GN)

UF = ['UserMesh_y_Fields_FE_XYZ_Module.py', 'UserMesh_y_Fields_Spherical1D_Module.py', 'UserMesh_y_Fields_FE2D_Module.py', 'Dolfin_Module.py']
UT = ('TLA+ specification of the finite-element equations with rational coefficients, and of tagged grids, model checked with TLC (SolveMC: symmetry, uniqueness, exactness for linear potentials, total charge); solves and meshes recorded from the real code validated against it')
prop('F01', 'The solved potential satisfies Poisson\'s equation and its boundary values',
     'After every solve, in 1D Cartesian, 1D spherical and 2D geometry, the potential takes the given value on each boundary that has one, and at every other vertex satisfies the discrete Poisson equation for the source in force: '
     'the last density expression assembled, or the charge passed to the solve times its factor. A boundary left unset gets the natural condition. The field object then holds the gradient of that potential in every cell. '
     'Any sequence of sources and solves on one solver works; charges handed in are at most scaled by the factor.',
     ['histories', 'inputs'], 'all meshes, boundary markings and values, charges, densities and sequences of solves',
     'Tests compare a handful of values, or a plot, for one mesh and one source.',
     UF, [('PoissonSolve_C.solve_for_phi, assemble_source_expression, compute_negE', 'Dolfin_Module.py'), ('UserPoissonSolve1D_C', 'UserMesh_y_Fields_FE_XYZ_Module.py'),
          ('UserPoissonSolve1DS_C', 'UserMesh_y_Fields_Spherical1D_Module.py'), ('UserPoissonSolve2DCirc_C', 'UserMesh_y_Fields_FE2D_Module.py')], UT,
     GN + ' The residual of each equation is compared with the error that rounding the logged potential to 1/1024 explains. Density expressions are constant or linear in the coordinates.')
prop('G04', 'User meshes cover the domain and carry the requested boundary marks',
     'A mesh built from user input (Cartesian interval, rectangle or box, stretched radial mesh, circular segment) has exactly the vertices of the requested grid, cells that tile the domain, and field and particle boundary '
     'markers that are the requested number on exactly the facets of the named side and zero elsewhere. A mesh and markers read from files equal the ones written, and the boundary names given are kept with the mesh.',
     ['inputs', 'configurations'], 'all extents, resolutions, stretchings, diagonals and boundary numberings',
     'Tests plot one mesh per class or use it without looking at all marks.',
     UF, [('UserMesh_C', 'UserMesh_y_Fields_FE_XYZ_Module.py'), ('UserMesh1DS_C', 'UserMesh_y_Fields_Spherical1D_Module.py'), ('UserMesh2DCirc_C', 'UserMesh_y_Fields_FE2D_Module.py'), ('Mesh_C', 'Dolfin_Module.py')], UT,
     'Random parameters chosen so that the grid points are integers after scaling; the expected grid, tiling and marks are computed by the specification.')

prop('P01', 'In a self-consistent run each part acts on the current state of the others',
     'In every step of a run that deposits, solves, advances and adds particles, over any number of steps: the densities of a species are the deposit of the particles it has at that moment; the charge is the sum over species of charge times density; '
     'the potential and field solve the equation for that charge; every charged particle is pushed by the field of the cell it was in and neutrals are not; it ends in the cell that holds it, reflected or removed at the sides of the '
     'domain; sources add the requested particles. No part changes what belongs to another.',
     ['histories', 'inputs'], 'all particles at any place and speed, charges, meshes, boundary behaviours, sources and numbers of steps',
     'Tests check the parts separately, from fixed states; whole simulations exist only as examples without assertions.',
     ['Particle_Module.py', 'Dolfin_Module.py', 'cpp/dolfin_functions.cpp'] + UF[:3],
     [('accumulate_number_density', 'Particle_Module.py'), ('multiply_add, interpolate_delta_function_to_dofs, add_weight_to_cell', 'Dolfin_Module.py'), ('solve_for_phi', 'Dolfin_Module.py'),
      ('advance_charged_particles_in_E_field, advance_neutral_particles, add_more_particles', 'Particle_Module.py')],
     'TLA+ specification of the self-consistent cycle, model checked with TLC over all small histories (PICMC: mirror and charge symmetry, Gauss, sums); whole runs of the real code, Python and C++, validated event by event against it (PICTrace)',
     'Random runs in 1D, spherical and rectangular 2D domains with particles at arbitrary real positions; real numbers are logged scaled and compared with the tolerance that the rounding explains. A particle whose path ends within '
     '6/4096 of a side is not judged in that step.')

prop('N01', 'A run repeats, whatever ran before it and whichever integrators it uses',
     'Making the same run again, in the same process and after any other use of the random numbers, gives the same particles, densities, charge, potential, field and totals at every step; choosing the C++ instead of the Python '
     'integrators gives the same run too, up to rounding.',
     ['histories', 'programs'], 'inputs, meshes, species, boundary behaviours, sources, numbers of steps, and what ran before in the process',
     'Tests compare single calls with stored numbers; none makes a run twice, and none compares a run with Python integrators to one with C++ integrators.',
     ['DT_Module.py', 'Particle_Module.py', 'Dolfin_Module.py', 'cpp/dolfin_functions.cpp'] + UF[:3],
     [('DTcontrol_C: random_seed', 'DT_Module.py'), ('create_maxwellian_particles; initialize_particle_integration', 'Particle_Module.py'), ('solve_for_phi, compute_negE', 'Dolfin_Module.py')],
     'TLA+ specification of runs repeated in one process (Twin), model checked with TLC; self-consistent runs of the real code, each made three times with Python and C++ integrators after arbitrary draws, validated state by state '
     'against the first (TwinTrace)',
     'Values are logged scaled and compared within 2 units, so that rounding never shows; identities, cells and flags are compared exactly. Covers what both kinds of integrators can do (three coordinate systems).')

prop('N02', 'Simulations in one process do not affect each other',
     'Several meshes, fields, solvers, particle storages, simulations and recordings may be alive in one process. Whatever order their operations are interleaved in, each gives the results it gives when it is used alone; '
     'making, changing or using one changes nothing that the others hold.',
     ['histories', 'schedules', 'programs'], 'pairs of sessions with their own meshes, fields, solvers, particles and recordings, and interleavings of their operations',
     'Tests make one mesh and one simulation at a time, or never return to the first; a value kept with the class, in a static variable or in a buffer that is reused only shows when the first object is used after the second.',
     ['Dolfin_Module.py', 'Particle_Module.py', 'RecordedData_Module.py', 'SegmentedArrayPair_Module.py', 'cpp/MeshEntityArrays.h', 'cpp/SegmentedArrayPair.h', 'cpp/dolfin_functions.cpp'] + UF[:3],
     [('Mesh_C tables, Field_C, PoissonSolve_C, CellSet_C', 'Dolfin_Module.py'), ('Particle_C, ParticleMeshBoundaryConditions_C', 'Particle_Module.py'), ('Trajectory_C, ParticleHistory_C', 'RecordedData_Module.py')],
     'TLA+ specification of two sessions that share no variable (Duo), model checked with TLC over all scripts and interleavings within bounds; pairs of sessions of the real code run interleaved in one process, validated event by event '
     'against each session run alone (DuoTrace); the other checks also validate such sessions against their own specifications',
     'What is one per process by design is kept apart between the sessions: the random numbers, the counter of unique IDs, and the segment length given to new storage. Sessions change turns between calls, not inside them.')
