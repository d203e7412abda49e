#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'deflect/'
A = {  # mechanisms
 'asm': ('assembly of element stiffness and loads', D+'beam2d.go Assemble, truss2d.go Assemble, truss3d.go Assemble'),
 'solve': ('partitioned solution and reactions', D+'linear_bvp_solver.go Solve'),
 'cond': ('static condensation of hinges', D+'static_condensation.go'),
 'incl': ('inclined supports as transformation of the equations', D+'inclined_support.go'),
 'poly': ('piecewise polynomials', D+'polynomial.go'),
 'interp': ('interpolation from start node values', D+'beam2d.go Interpolate, truss2d.go InterpolateNxOrUx, truss3d.go Interpolate'),
 'res': ('queries of results', D+'solver_result.go'),
 'lay': ('symbolic indices to equation numbers', D+'eq_layout.go'),
 'json': ('translation of JSON', D+'problem_from_json.go'),
 'loads': ('element loads', D+'element_loads.go, one_dim_element.go AddLoad/RemoveLoad'),
 'chol': ('built-in equation solver', D+'cholesky.go'),
 'cs': ('cross sections', D+'cross_sections.go'),
 'geo': ('geometry of elements', D+'geometry.go'),
 'frame': ('frame composed of truss and beam', D+'frame.go'),
 'iexp': ('expectations', 'integr/expectations.go, integr/expectations_from_json.go'),
 'ibvp': ('input library', 'integr/bvp.libsonnet'),
 'itest': ('expectation library', 'integr/test.libsonnet'),
}
P = []
def prop(id, title, statement, over, quant, why, mech, files, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant),
      why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=A[m][0], where=A[m][1]) for m in mech],
      **({'state': state} if state else {})), technique=technique, note=note))
F = lambda *n: [D+x for x in n]
ELEM = F('beam2d.go','truss2d.go','truss3d.go','frame.go','static_condensation.go','geometry.go','one_dim_element.go')
structures = 'all uniquely solvable structures of 2D frames, 2D and 3D trusses and mixtures, with any geometry, hinges, supports, inclined supports, prescribed displacements and loads'
fixed_samples = 'The tests check published numbers of about twenty small structures; they cannot cover the combinations of geometry, hinges, supports and loads.'

prop('C01','Reactions balance all applied loads',
 'For every solved structure, the reported reactions and all applied loads (nodal and element loads) are in global equilibrium: forces sum up to zero in every direction, and so do moments about any point where moments are transferred by frames. This holds whatever the distribution of stiffness, hinges, and prescribed displacements.',
 ['inputs'], structures, fixed_samples, ['asm','solve','incl'], F('linear_bvp_solver.go','inclined_support.go')+ELEM,
 'runtime monitor: conservation law over results of randomly generated structures',
 'Forces and moments are summed in double-double with an a-priori error bound; trusts the harness description of the applied loads.')
prop('C02','Every node is in equilibrium with its member end forces',
 'At every node of a solved structure, the end forces and moments of all connected members (from the reported internal forces), nodal loads and reactions cancel in every direction. Nothing is lost or double-counted between elements, loads, and supports.',
 ['inputs'], structures, fixed_samples, ['asm','interp','cond','solve'], F('linear_bvp_solver.go','solver_result.go')+ELEM,
 'runtime monitor: nodal equilibrium of reported internal forces, loads, reactions',
 'Uses only results of the public API; sign conventions are those established by the documented examples.')
prop('C03','Supports, inclined supports and prescribed displacements are honoured',
 'Reported displacements match what is prescribed at supports, vanish perpendicular to the sliding direction of inclined supports, and reactions exist only in supported directions (for inclined supports, only perpendicular to the sliding direction). A prescribed rigid body motion moves the whole structure without any internal forces.',
 ['inputs'], structures+'; any inclination, any prescribed values including mixtures of zero and non-zero ones', fixed_samples, ['solve','incl','lay'], F('linear_bvp_solver.go','inclined_support.go','eq_layout.go'),
 'runtime monitor: boundary conditions re-checked on every result, nodal values of the reference model; rigid motions',
 'Inclined supports that share a direction at one node are part of the workload.')
prop('C04','Internal forces on members match the applied loads',
 'On each member, the reported normal force, shear force and bending moment cover the complete member without gaps or overlaps, and are related to the applied element loads by differential equilibrium, with jumps exactly where concentrated loads act. Unloaded stretches have constant normal and shear force.',
 ['inputs'], 'all combinations of concentrated, constant and linear element loads, at any position, order and number, on any member of '+structures, fixed_samples, ['interp','poly','loads'], F('polynomial.go','beam2d.go','truss2d.go','truss3d.go','element_loads.go'),
 'runtime monitor: differential equilibrium and jump conditions on reported polynomials, values of the reference model',
 'Derivatives of the polynomials are evaluated independently of the code under test.')
prop('C05','Deformations follow from internal forces and match the nodes',
 'On each member, the reported axial displacement, rotation and deflection derive from the reported internal forces through the material law, are continuous and kinematically consistent along the member, and coincide with the nodal displacements at unhinged ends. Only at hinged ends may they differ, and only in the released direction.',
 ['inputs'], structures, fixed_samples, ['interp','poly','cond'], F('polynomial.go','beam2d.go','truss2d.go','truss3d.go','static_condensation.go'),
 'runtime monitor: material law, continuity and nodal compatibility of reported polynomials, values of the reference model',
 'Tolerances derive from the stiffness and conditioning of the structure.')
prop('C06','Hinges release exactly what they are meant to',
 'At a hinge, the released internal force or moment is zero (apart from a load that acts right there), in any combination of released directions that leaves the member restrained, while everything else is still transmitted. A combination that leaves a member unrestrained or that is not supported is refused with an error.',
 ['inputs'], 'all combinations of hinges on each kind of member, with any load and in '+structures, 'Each supported combination is covered by one or two examples, and refused combinations by unit tests of the condensation only.', ['cond','interp','frame'], F('static_condensation.go','frame.go','beam2d.go','truss2d.go','truss3d.go'),
 'runtime monitor: released forces and the reference model for all hinge combinations; refusal oracle',
 'Every combination is enumerated, structures and loads around it are random.')
prop('C07','Results agree with an independent structural model',
 'All displacements, reactions, internal forces and deformations of a solved structure agree with the exact solution of first-order beam and truss theory, within the accuracy that floating point arithmetic permits for the conditioning of the structure.',
 ['inputs'], structures, fixed_samples, ['asm','solve','cond','incl','interp'], F('linear_bvp_solver.go','solver_result.go','inclined_support.go')+ELEM,
 'differential runtime oracle: independent double-double reference model',
 'The reference computes with about 32 digits, treats hinges as separate degrees of freedom and inclined supports by constraints, and shares no code.')
prop('C08','Results are linear in loads and prescribed displacements',
 'Scaling all loads and prescribed displacements scales all results, and the results of combined load cases are the sum of the results of the individual ones. No loads mean no results other than zero.',
 ['inputs'], structures+' with arbitrary splits of loads into load cases', fixed_samples, ['asm','solve','interp'], F('linear_bvp_solver.go')+ELEM,
 'metamorphic runtime oracle: superposition and scaling', 'Compares executions of the real code with each other.')
prop('C09','Results do not depend on position and orientation in the plane',
 'Moving, rotating or mirroring a structure together with its loads and supports yields the moved, rotated or mirrored displacements and reactions, and the same internal forces (up to the sign convention when mirrored).',
 ['inputs'], structures+', any angle, shift, and mirrored or not', fixed_samples, ['asm','geo','incl'], F('geometry.go','inclined_support.go')+ELEM,
 'metamorphic runtime oracle: rigid transformations of the input', 'Compares executions of the real code with each other.')
prop('C10','Splitting or reversing members does not change results',
 'Subdividing a member at any point (with loads divided accordingly) or swapping its start and end node (with loads and hinges mapped) describes the same structure and must yield the same displacements, reactions, internal forces and deformations.',
 ['inputs'], structures+', any number of subdivisions at any point', fixed_samples, ['asm','interp','cond'], ELEM,
 'metamorphic runtime oracle: refinement and reversal', 'Compares executions of the real code with each other.')
prop('C11','Order and naming of entities do not matter',
 'The order in which nodes, elements, boundary conditions, loads and hinges are given, and the names they are given, have no influence on results. Solving the same JSON input repeatedly gives the same results, although its objects are not ordered.',
 ['inputs','schedules'], structures+', arbitrary permutations, arbitrary unique names, repeated random map iteration orders', 'Tests use one order and short names, and cannot control map iteration.', ['lay','json','solve'], F('eq_layout.go','problem_from_json.go','linear_bvp_solver.go','inclined_support.go'),
 'metamorphic runtime oracle: permutation, renaming, repetition', 'Compares executions of the real code with each other.')
prop('C12','Work and reciprocity theorems hold',
 'For every solved structure, the work done by loads and reactions equals the strain energy of the reported internal forces, and for two load cases on the same structure, the work of the first along the displacements of the second equals the work of the second along the displacements of the first.',
 ['inputs'], structures+' with two independent sets of loads and prescribed displacements', fixed_samples, ['asm','solve','interp'], F('linear_bvp_solver.go','polynomial.go')+ELEM,
 'runtime monitor: energy balance and reciprocity from reported results', 'Integrates the reported polynomials exactly.')
prop('C13','Equivalent loads are equivalent, removed loads leave no trace',
 'Different ways to express the same loading (a sum of loads, a constant load as a linear one, a concentrated load at a member end as nodal load) give the same results. After any sequence of adding and removing loads, results are those of the loads that are left; a load that an element refuses has no effect.',
 ['inputs','histories'], structures+'; any history of adding and removing loads, including repeated instances', 'Tests add loads once and remove them from single elements in few fixed sequences.', ['loads','frame','asm'], F('element_loads.go','one_dim_element.go','frame.go','beam2d.go','truss2d.go'),
 'metamorphic runtime oracle and history monitor against a multiset model of loads', 'Compares with a fresh structure that has the expected loads.',
 [dict(name='loads', meaning='loads currently acting on an element', where=D+'one_dim_element.go')])
prop('C14','Unsolvable structures are reported as errors',
 'A structure that is a mechanism, has no or too many supports, supports one degree of freedom more than once, or has supports, inclined supports or loads at non-existing degrees of freedom, is reported as an error, instead of returning meaningless numbers or crashing. Solvable structures, even those with very different stiffnesses, are not refused.',
 ['inputs'], 'all kinematically indeterminate or inconsistent structures', 'A handful of failing examples are tested; singularity only shows up in floating point for specific geometries.', ['chol','solve','lay'], F('cholesky.go','linear_bvp_solver.go','eq_layout.go'),
 'runtime oracle: constructed mechanisms and inconsistent inputs must be refused; reference model classifies',
 'Two known findings (rounding noise as stiffness) are listed and printed.')
prop('C15','Mistaken JSON input is rejected',
 'JSON input with a mistake (an unknown reference, kind or degree of freedom, missing or superfluous data, wrong types or counts, invalid values, duplicated or contradicting entries as far as they are documented to be invalid) is rejected with an error, even when everything else is valid. It is never silently ignored or replaced with a default.',
 ['inputs'], 'all valid inputs with one out of about sixty kinds of mistakes at any place', 'The tests have about one example per kind of mistake at a fixed place of a minimal input.', ['json','cs','loads'], F('problem_from_json.go','cross_sections.go','element_loads.go','one_dim_element.go'),
 'runtime oracle: mutation of valid inputs, each with an expected rejection', 'Mistakes that are documented or established to be accepted are not claimed.')
prop('C16','No input crashes or hangs, or yields non-finite numbers without an error',
 'Whatever JSON or sequence of API calls the user supplies, the outcome is either an error or finite results; there is no panic, hang, or memory exhaustion. Queries with wrong names, quantities or tolerances are errors as well.',
 ['inputs'], 'arbitrary bytes, arbitrary JSON, corrupted valid JSON, hostile values and misuse of the Go API', 'Tests only use well-formed values.', ['json','solve','lay','res','poly'], F('problem_from_json.go','linear_bvp_solver.go','eq_layout.go','solver_result.go','cholesky.go','polynomial.go'),
 'runtime monitor: crash, hang and finiteness oracle under fuzzing with hostile inputs', 'Structure-aware and byte-level mutations; time and memory are limited.')
prop('C17','Results are independent of history',
 'Reusing a solver, equation solver, layout, elements or inclined supports for several problems or repeatedly, with failures and queries in between, gives the same results as with fresh objects. Results obtained earlier never change, and solving does not modify the problem.',
 ['histories'], 'all histories of solving (also failing) problems of any size with shared objects, and of querying results in any order', 'Tests solve each problem once with fresh objects.', ['solve','lay','res','incl'], F('linear_bvp_solver.go','eq_layout.go','solver_result.go','inclined_support.go'),
 'history monitor: snapshots of all results compared with fresh executions', 'Random histories; equality is exact when the executions must be identical.',
 [dict(name='buffers', meaning='matrices the solver re-uses', where=D+'linear_bvp_solver.go matrices'), dict(name='lookup failures', meaning='recorded during assembly and queries', where=D+'eq_layout.go')])
prop('C18','Independent problems can be solved concurrently',
 'Solving independent problems at the same time, each with its own objects, is free of data races and gives the same results as solving them one after another. This includes reading the same immutable input, creation of elements and hinges, parsing and solving.',
 ['schedules'], 'all interleavings of concurrent parsing, solving and querying of independent problems', 'Only the integration tests run in parallel, without comparing to sequential results, and without stress.', ['solve','cond','json','lay'], F('linear_bvp_solver.go','static_condensation.go','problem_from_json.go','eq_layout.go','cholesky.go'),
 'race detector (compiler sanitizer) and comparison with sequential results under stress', 'Built with -race; random yields; interleavings are sampled.')
prop('C19','Queries of results are complete and consistent',
 'All ways to query the same result agree: single and bulk queries of nodal values and interpolations, in any order and repeatedly, cover exactly the degrees of freedom and quantities of the structure, without duplicates. A tolerance for interpolations only removes what is negligible, and unknown nodes, elements or quantities are errors.',
 ['inputs','histories'], 'all results of '+structures+', any tolerance, any order of queries', 'Tests query single values that are expected to exist.', ['res','poly','lay'], F('solver_result.go','polynomial.go','eq_layout.go'),
 'runtime monitor: cross-checks between queries', 'Bulk and single queries are compared exactly, tolerances with bounds.')
prop('C20','JSON and Go API describe the same problem',
 'A problem given as JSON, in any of the equivalent ways the format offers (implicit nodes of elements, omitted references, omitted coordinates, grouped values), has the same nodes, elements, supports, loads and results as the one created through the API.',
 ['inputs'], structures+' in all styles of expressing them', 'The tests solve JSON inputs against fixed numbers, and rarely use the defaults of the format.', ['json'], F('problem_from_json.go'),
 'differential runtime oracle: JSON path against API path', 'Entities are compared as sets, results with exact or tight tolerance.')
prop('C21','Piecewise polynomials behave like the functions they represent',
 'Evaluating, looking up intervals, trimming and merging piecewise polynomials preserves the represented function: values inside the domain are those of the polynomial and outside are errors, intervals are found if and only if they exist, and trimming and merging change nothing but what the tolerance permits and never cross a gap.',
 ['inputs'], 'all sequences of polynomial pieces, positions and tolerances', 'Tests use a few short sequences with round numbers.', ['poly'], F('polynomial.go'),
 'runtime oracle: exact rational arithmetic and a model of trimming and merging', 'Exported operations only; borderline values near the tolerance are avoided.')
prop('C22','Linear systems are solved accurately, or an error is reported',
 'The built-in equation solver solves any well-conditioned symmetric positive definite system with a small residual, irrespective of scaling and storage, without modifying its inputs, and reports an error for systems that are not positive definite. A custom equation solver that is plugged in gets a symmetric positive definite system of the free degrees of freedom, its solution is used, and its failure is reported to the caller.',
 ['inputs','fault_sequences'], 'all systems with moderate condition number and any diagonal scaling; all structures with any custom solver, failing or not', 'Tests solve one 4×4 system and one singular system; there is no test of custom solvers.', ['chol','solve'], F('cholesky.go','linear_bvp_solver.go'),
 'runtime oracle: double-double residual, refusal, spying equation solver with injected failures', 'Condition numbers above 1e8 are not claimed.')
prop('C23','Cross sections have the properties of their shape',
 'A rectangle has the area, moments of inertia and torsion constant of its dimensions (torsion within one percent of theory), independent of which side is called width, and consistent under scaling; constants are returned as given. Non-positive dimensions or constants, missing ones and negative optional ones are refused.',
 ['inputs'], 'all dimensions and aspect ratios, all sets of constants', 'Tests check one rectangle per quantity and torsion only for a square.', ['cs'], F('cross_sections.go'),
 'runtime oracle: independent formulas, series solution, symmetry and scaling laws', 'Torsion against the exact series within 0.6 percent (the formula deviates by up to 0.49 percent).')
prop('C24','No direction in space is special for 3D trusses',
 'A 3D truss that is rotated arbitrarily or whose axes are exchanged or reversed, together with its loads and supports, has the rotated displacements and reactions and the same internal forces. A plane truss gives the same results when modelled as a 3D truss in any coordinate plane with restrained out-of-plane displacements, and so does a plane frame with 3D frame elements.',
 ['inputs'], 'all 3D trusses with any axial hinges, loads, supports, inclined supports and prescribed displacements; any rotation', 'Tests have four 3D trusses, with published numbers.', ['asm','geo','incl','interp'], F('truss3d.go','frame.go','geometry.go','inclined_support.go'),
 'metamorphic runtime oracle: rotations, axis permutations, embedding of plane structures', 'Compares executions of the real code with each other.')
prop('C25','Results do not depend on the choice of units',
 'Expressing lengths, forces and stiffness in other units yields the same results in those other units, as long as quantities are within reasonable bounds. There is no hidden absolute tolerance in the solution.',
 ['inputs'], structures+', unit factors of several decades', fixed_samples, ['asm','solve','chol','interp'], F('linear_bvp_solver.go','cholesky.go','polynomial.go')+ELEM,
 'metamorphic runtime oracle: change of units', 'Lengths stay within bounds where the documented absolute tolerances of 1e-10 for positions do not matter.')
prop('C26','Expectations in inputs pass if and only if results meet them',
 'Expectations that accompany a problem (nodal displacements, reactions, polynomials along elements by degree, range, boundary values or sample points, and failure) pass when the results agree within the given tolerances, and fail for each kind of deviation. Malformed expectations are refused, not ignored.',
 ['inputs'], 'all expectations, in any combination and with any tolerances, about results of '+structures, 'The tests of the expectations use a single trivial polynomial; in the integration tests all expectations are met, so that nobody notices those that never fail.', ['iexp'], ['integr/expectations.go','integr/expectations_from_json.go'],
 'runtime oracle: expectations derived from results with and without injected deviations', 'Deviations close to the tolerance are avoided.')
prop('C27','The Jsonnet library describes what its functions are named after',
 'A problem written with the functions of the Jsonnet library is the one it describes: supports, inclined supports, loads, materials, cross sections and elements, with and without default arguments, yield the same results as the API. Expectations written with the test library pass for the results they describe, and fail otherwise.',
 ['inputs'], structures+''+' expressed with the library', 'Many functions of the library are used by no or one integration test, and most arguments have always the same value.', ['ibvp','itest','json'], ['integr/bvp.libsonnet','integr/test.libsonnet'],
 'differential runtime oracle: evaluated Jsonnet against API; expectations with injected deviations', 'Jsonnet is evaluated by go-jsonnet, an existing dependency of the repository.')
prop('C28','Elements, inclined supports and user-defined parts honour their interfaces',
 'Used directly, an element adds its stiffness and consistent loads to whatever the matrices contain, as often as asked and independent of current displacements, touches nothing it is not connected to, and its interpolations for any given displacements are in equilibrium with them. Inclined supports rotate exactly their two degrees of freedom, forth and back. User-defined cross sections, elements and transformations give the same results as the built-in ones they imitate.',
 ['inputs','histories'], 'all elements with any geometry, hinges and loads, any content of the matrices, any displacements; all inclined supports', 'Tests assemble single elements into empty matrices, or solve structures, where displacements are always those of the solution; no test has user-defined parts.', ['asm','interp','incl'], F('deflect.go','inclined_support.go')+ELEM,
 'runtime oracle at the interfaces: entries and fields against an independent element model, and against what must remain unchanged', 'Positions of degrees of freedom within the matrices are found out by rotating pairs of them.')
exec(open(os.path.join(here,'tools','more.py')).read()) if os.path.exists(os.path.join(here,'tools','more.py')) else None

with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P:
        q = {k: v for k, v in p.items() if k not in ('technique','note')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q, ensure_ascii=False)+'\n')
checks = [dict(property=p['id'], quick_cmd=f"bash check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p['id']}",
  technique=p['technique'], level='exploration', level_note=p['note']) for p in P]
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
  notes='All monitors are one Go program in harness/, built against /repo by check.sh. No hooks in /repo: everything is observed through the public API, the race detector, the log and process outcome. known_findings.txt lists known and fixed defects.')
json.dump(m, open(os.path.join(here,'MANIFEST.json'),'w'), indent=1, ensure_ascii=False)
