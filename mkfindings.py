"""Regenerates known_findings.json: the fixed entries come from /repo's "fix:" commits (run by hand, never by a check)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
WHICH = {  # subject -> (property, what failed)
 'appending to a segmented array after a loop over its segments': ('C01', 'append after a reading pass raised/asserted or misplaced the item'),
 'setting the number of items in a segmented array to zero': ('C01', 'set_number_of_items(0) left the store unusable'),
 'uniform-field mover counted a full last segment twice': ('C02', 'advance with an exactly full last segment reported twice its particles'),
 'C++ neutral mover in x-y looked for the facet from the wrong starting point': ('C04', 'advance_neutral_species_cartesian_xy: wrong facet after the first crossing of a step'),
 'neutral mover left self.dx stale for reflecting boundary functions': ('C04', 'Python neutral mover: a boundary function reflecting with self.dx used another particle\'s move'),
 'reflection read past the facet normal when the mesh has fewer dimensions than the particles': ('C16', 'Pstruct::reflect_from_surface read out of bounds on 1D/2D meshes'),
 'C++ uniform-field mover failed on a species with no particles': ('C02', 'C++ uniform-field mover crashed on an empty species'),
 'random external field could not be interpolated with one force component': ('C09', 'interpolate_random_field_to_points raised ValueError for 1-component fields'),
 'random external field was evaluated at unused slots of a particle segment': ('C09', 'external field evaluated at unused segment slots (point outside the mesh)'),
 'mover failed when the solved or the external field is switched off for a species': ('C04', 'AttributeError in advance_charged_species_in_E_field with a field switched off'),
 'C++ charged-particle movers ignored accel_only': ('C05', 'accel_only=True moved the particles in the C++ engine'),
 'C++ movers dereferenced a null field when it is switched off for a trajectory species': ('C16', 'null pointer at a boundary crossing of a trajectory particle with the field switched off'),
 'C++ x-y mover recorded only one field component at a boundary crossing': ('C07', 'Ey at a boundary crossing was uninitialised memory in the C++ x-y mover'),
 'a full trajectory stopped the recording of all the others': ('C07', 'record_trajectory_data: one trajectory at its storage limit ended the recording of the others'),
 'particle number and kinetic energy included unused slots of the last C++ segment': ('C14', 'get_species_number/get_species_KE wrong with a partly filled last segment (C++ store)'),
 'NameError when a history is limited to max_points': ('C14', 'History_C with max_points raised NameError'),
 'recording a history past the end of its storage raised IndexError': ('C14', 'record_history_data past the storage end raised IndexError'),
 'initialize_particles could not create particles over a region': ('C15', 'initialize_particles raised for a species initialised over a region'),
 'no trajectory could be started for a source particle in a run without forces': ('C07', 'add_more_particles raised for a trajectory particle of a run without forces'),
 'C++ find_facet read out of bounds or exited when the path ends inside the cell': ('C10', 'dolfin_functions_solib.find_facet: out-of-bounds read (2D, 3D) or exit() of the process (1D) for a path ending inside the cell'),
 'a source density given as a string could not be assembled': ('C12', 'assemble_source_expression raised KeyError for a string expression'),
 'the source density had no volume element in spherical coordinates': ('C12', 'assemble_source_expression in spherical coordinates solved the wrong equation for any non-zero density'),
 'solve_for_phi multiplied the caller\'s charge by the spacecharge factor': ('C12', 'solve_for_phi(assembled_charge_factor=f) changed the caller\'s charge'),
 'function_values of the electric field were left behind by a field solve': ('C12', 'after a solve neg_electric_field.function_values was the vector of the previous field'),
 'compute_cell_index returned an invalid index for a point outside the mesh': ('C17', 'compute_cell_index returned 4294967295 for a point outside the mesh'),
 'spherical cell volumes were negative if the vertices are numbered inward': ('C11', 'cell_volume_dict negative on a spherical mesh numbered from outside in'),
 'particle boundaries of 1D and 3D Cartesian meshes were not marked': ('C18', 'UserMesh_C with particle_boundary_dict left every facet of 1D and 3D meshes unmarked'),
 'set_gaussian_values on a region with more cells than DoFs overran the scratch array': ('C17', 'Field_C.set_gaussian_values raised ValueError for a region with more cells than the field has degrees of freedom'),
 'the first write to a new particle output file was skipped if the previous file was written on the same step': ('C13', 'initialize_particle_output_file then write_particles_to_file in a step already written to an earlier file wrote nothing'),
 'write_particles_to_file did not close the file when the step had already been written': ('C13', 'write_particles_to_file(close_flag=True) left the file open if the step had already been written'),
 'boundary markers of a spherical mesh could not be read from files': ('C18', 'UserMesh1DS_C with boundary-marker files raised AttributeError'),
 'fast_expansion_sum_zeroelim read one element past the end of its operands': ('C16', 'is_inside_vertices in 2D near a facet: stack-buffer-overflow read in the adaptive orientation predicate'),
 'move_particles_in_electrostatic_field failed with the solved field switched off and interpolated the external field past the stored particles': ('C04', 'move_particles_in_electrostatic_field raised AttributeError for a species without the solved field but with the external one'),
 'move_particles_in_electrostatic_field failed when a trajectory particle crossed a boundary': ('C07', 'move_particles_in_electrostatic_field raised TypeError when a trajectory particle crossed a boundary'),
 'source particles could not be placed near the far corner of a long thin cell': ('C15', 'a source never put particles in the part of a long thin cell that is farther from the cell midpoint than the circumradius'),
 'moving charged particles with the C++ movers and no solved field failed': ('C05', 'advance_charged_particles_in_E_field without a solved field raised AttributeError with the C++ movers; the Python ones move the particles'),
 'the error messages of the Python neutral mover used an undefined name': ('C20', 'a neutral particle crossing more facets than MAX_FACET_CROSS_COUNT ended in NameError (fncName) instead of the error report'),
}
KNOWN = []
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
out = list(KNOWN)
for l in log:
    h, sub = l.split(' ', 1)
    if sub.startswith('fix: '):
        p, w = WHICH[sub[5:]]
        out.append(dict(property=p, status='fixed', commit=h, what=w, line='fixed: property=%s %s %s' % (p, h, w)))
json.dump(out, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(out))
