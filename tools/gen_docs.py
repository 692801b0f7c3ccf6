"""Writes properties.jsonl and MANIFEST.json from the table below (python tools/gen_docs.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "hyperstatic/core/"
A = "hyperstatic/app/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=observe,
                  technique=technique, note=note))


prop("C01", "Static displacements are the exact frame solution",
     "For every well-posed linear space frame built through the core classes or the Api, the solved nodal displacements of a static load case (order: node by node, UX UY UZ RX RY RZ, global axes) are those of the exact Euler-Bernoulli frame under the combined nodal loads and trapezoidal or point member loads of the case. Restrained freedoms stay exactly at zero and the free ones are in equilibrium.",
     ["inputs"], "every stable space frame: geometry, member types and sections, rolled axes, supports, load patterns, factors, number of nodes and their order of creation",
     "the tests solve four or five beams and trusses with one loading each, most need a module that is not installed here; the quantifier is over structures",
     [C + "fe_model/assembly.py", C + "fe_model/element/line/beam.py", C + "fe_model/element/line/simple_beam.py", C + "fe_solver/static.py", C + "__init__.py"],
     [("assembly of stiffness, loads and supports", C + "fe_model/assembly.py"), ("member stiffness in local axes and its transformation", C + "fe_model/element/line/"), ("sparse direct solution", C + "fe_solver/static.py")],
     ["the displacement file a solver writes", "Api.result_get_nodal_displacement"],
     "online monitoring of random solves against an executable reference frame model",
     "held on the frames observed, against an independent numpy frame solver; frames with a condition number above 1e7 left out")
prop("C02", "Response is linear in the loads and reciprocal",
     "The response to a combination of load patterns is the same combination of the responses to each: displacements, reactions and member end forces superpose, scale with the factors, however small or large, are zero for zero load, and do not depend on the order in which patterns are added. Unit loads at two freedoms satisfy Betti's and Maxwell's reciprocity.",
     ["inputs"], "every well-posed frame, every set of patterns and factors, every pair of load cases",
     "the tests never solve one structure under two loadings",
     [C + "fe_model/load/loadcase.py", C + "fe_model/load/pattern.py", C + "fe_model/assembly.py", C + "fe_solver/static.py"],
     [("load cases combine patterns with factors", C + "fe_model/load/loadcase.py"), ("symmetric stiffness", C + "fe_model/assembly.py")],
     ["displacement files", "Api results"], "metamorphic monitors over pairs of real solutions",
     "held on the frames observed; compares solutions of the code with each other, tolerance from the conditioning")
prop("C03", "The solution does not depend on how the structure is described",
     "Describing the same structure otherwise does not change its solution: moving or turning the whole structure turns the displacements with it; renaming or reordering nodes and members, swapping the ends of a member (loads adapted), cutting a member in two, using the other beam element, or changing units leaves them the same.",
     ["inputs", "programs"], "every well-posed frame and every equivalent re-description of it",
     "no test solves the same structure twice; a defect that respects one description (axes parallel to the world, nodes in order) is invisible to them",
     [C + "fe_model/assembly.py", C + "fe_model/element/line/", C + "fe_model/model.py", "hyperstatic/common/csys.py"],
     [("local axes from geometry", C + "fe_model/element/line/__init__.py"), ("numbering of nodes and members", C + "fe_model/model.py")],
     ["displacement files"], "metamorphic monitors over pairs of real solutions",
     "held on the frames and transformations observed; compares solutions of the code with each other")
prop("C04", "Supports mean zero displacement, and load cases do not disturb each other",
     "A load case that names supports of its own is solved under exactly these, any other case under the supports of the model; the last setting of a support wins. Each case has the same solution whatever other cases exist, were solved before (by the same solver or another), or are solved again; adding a support where nothing moves changes nothing, and adding a support never increases the work of the loads.",
     ["inputs", "histories"], "every frame with several cases and supports, every order of solving them, every history of setting supports",
     "the tests use one case with the supports of the model",
     [C + "fe_model/assembly.py", C + "fe_model/node.py", C + "fe_model/load/loadcase.py", C + "fe_solver/static.py"],
     [("supports per case replace those of the model", C + "fe_model/assembly.py"), ("solver reads the supports from the assembled case", C + "fe_solver/static.py")],
     ["displacement files", "Api results"], "monitors over recorded solve histories against a reference model",
     "held on the histories observed, against an independent frame solver")
prop("C05", "Results belong to the model assembled last in their workspace",
     "Along any history of edits, assemblies and solutions over one or several workspaces, the results of a case solved in a workspace since its last assembly are those of the model as it was at that assembly. Edits not yet assembled do not reach a solution, other workspaces are not touched, and a case never solved has no result. This goes for modes as for displacements; a workspace that was cleared is there and empty, as if nothing had been assembled or solved in it, while the model and other workspaces remain.",
     ["histories"], "every sequence of edits, assemblies into workspaces, static and modal solutions, queries",
     "each test is one straight line: build, assemble, solve, once",
     [C + "fe_model/assembly.py", C + "fe_solver/", C + "__init__.py", C + "fe_post/"],
     [("assembled matrices and cases are files in a workspace", C + "fe_model/assembly.py"), ("solver reads the workspace only", C + "fe_solver/__init__.py")],
     ["workspace files", "Api results"], "online checking of random histories against a shadow model",
     "held on the histories observed; a shadow recomputes every answer from the structure at the last assembly")
prop("C06", "The model stores what it is told, and refused calls change nothing",
     "Every accepted call on the Api or the model is reflected exactly by the queries (locations, connections, names, supports, loads, masses, releases, sections), nodes and members nearer to each other than the tolerance are merged on demand under the first name, others never, numbering stays dense in the order of creation, and returned collections are not live. A call that names something unknown or is malformed is refused (the Api returns False) and leaves every query unchanged.",
     ["histories", "inputs"], "every sequence of valid and invalid calls",
     "the tests make a handful of valid calls and ask a few of them back",
     [C + "__init__.py", C + "fe_model/model.py", C + "fe_model/node.py", C + "fe_model/load/pattern.py"],
     [("name-to-object tables with ids", C + "fe_model/model.py"), ("Api wrappers turning exceptions into return values", C + "__init__.py")],
     ["return values of every call and of the queries after it"], "call-by-call monitoring against a dictionary model",
     "held on the call sequences observed, against a dictionary model of the store")
prop("C07", "Member loads reach the nodes as work-equivalent end forces",
     "A trapezoidal or point load on a member, of any component, size and position, is replaced by the end forces and moments that do the same work on the member's shape functions (linear for axial and torsion, cubic for bending); resultant and moment are kept, loads of several kinds add, mirroring the load mirrors the end forces. Load cases and assembled load vectors carry exactly these, scaled by the pattern factors and turned to global axes.",
     ["inputs"], "every load, position and member length",
     "two tests with one load each",
     [C + "fe_model/load/pattern.py", C + "fe_model/load/loadcase.py", C + "fe_model/assembly.py"],
     [("closed-form equivalent end forces", C + "fe_model/load/pattern.py")],
     ["LoadPattern/LoadCase queries", "assembled load vectors"], "monitored queries against quadrature of the virtual work",
     "held on the loads observed, against Gauss quadrature of the shape functions")
prop("C08", "Beam element matrices are exact",
     "For a beam of any position, direction and roll, stiffness, lumped and consistent mass, local axes, transformation and interpolation are those of the exact Euler-Bernoulli element: symmetric, free of stress under all six rigid motions, of rank six, with the right total mass; shape functions reproduce end values and slopes and every cubic. A member out of plumb by however little is as good as any. Setting the roll angle is absolute, not incremental.",
     ["inputs"], "every beam: both element types, end points, roll, section and material",
     "two tests compare a few entries for one horizontal beam",
     [C + "fe_model/element/line/", "hyperstatic/common/csys.py"],
     [("closed-form matrices", C + "fe_model/element/line/"), ("direction cosines", "hyperstatic/common/csys.py")],
     ["element matrices and axes"], "monitored element queries against an integrated reference element",
     "held on the beams observed, against an independent element obtained by integration")
prop("C09", "Modal results solve the structure's own eigenproblem",
     "The modes of a frame are true ones: frequencies are those of its stiffness and mass (half of each member's mass at either end, whatever ends are released, plus nodal masses) under the supports of the case, lowest first without gaps; mode shapes satisfy the eigenvalue equation, are orthogonal with respect to the mass and zero at supports. Circular frequency, frequency and period agree, and they scale with the square roots of stiffness and mass.",
     ["inputs"], "every supported frame with member and nodal masses, every number of modes, supports on model or case",
     "the tests print two modal solutions of a cantilever, one depends on the sign of an eigenvector",
     [C + "fe_solver/dynamic.py", C + "fe_model/assembly.py", C + "fe_post/structure.py", C + "fe_post/node.py"],
     [("sparse eigenvalue solution", C + "fe_solver/dynamic.py"), ("mass assembly", C + "fe_model/assembly.py")],
     ["mode and frequency files", "Api modal results"], "monitored modal solves against a dense reference eigensolver",
     "held on the frames observed, against a dense eigensolver on the reference matrices")
prop("C10", "Reactions, member forces and deformations agree with statics",
     "After a static solution, reactions exist only at supports and balance all applied loads; end forces keep every member and every node in equilibrium and vanish at released ends. Deformations along a member meet the nodal displacements at its ends and, where it carries no load and no release, follow the exact deflection between.",
     ["inputs"], "every solved frame, every node, member and station",
     "no test asks for a reaction, an end force or a deformation of a solved structure and compares it",
     [C + "fe_post/beam.py", C + "fe_post/node.py", C + "__init__.py", C + "fe_model/element/line/beam.py"],
     [("results from displacement files and element matrices", C + "fe_post/")],
     ["Api results", "post-processing classes"], "monitors of equilibrium and a reference model over random solves",
     "held on the frames observed; equilibrium from first principles and an independent frame solver")
prop("C11", "Coordinate systems stay orthonormal and turn by what was asked",
     "Along any history of operations, a Cartesian system has orthonormal right-handed axes, its origin and axes follow exactly the definitions and rotations asked for, in their order, and its transformation matrix has the axes as rows. Three points in line are rejected, and a rejected definition leaves the system unchanged; systems share state neither with one another nor with the lists and arrays they were given. The same holds for the local axes of a node, which are global until turned and stay where the node was put.",
     ["histories", "inputs"], "every start and every sequence of operations",
     "the tests try four rotations about one axis",
     ["hyperstatic/common/csys.py", C + "fe_model/node.py"], [("axis-angle rotation and Gram-Schmidt-free definition by points", "hyperstatic/common/csys.py")],
     ["axes, origin, transformation matrix"], "online checking of operation histories against an executable model",
     "held on the histories observed, against Rodrigues' formula")
prop("C12", "Section and material constants are right for every dimension",
     "Area, shear areas, second moments, torsion constant, section moduli and radii of gyration of box, I, pipe, circular and rectangular sections follow the geometry for every dimension, scale with the right powers of size, and stay as given for general sections; shape and sizes stay as given. Shear modulus, Lame constants, strain and stress tensor of an isotropic material follow E and the Poisson ratio, and members use the constants of their section about the right axes.",
     ["inputs"], "every admissible set of dimensions and material constants",
     "one test per family with one set of dimensions, some constants unchecked",
     [C + "fe_model/section/beam_section.py", C + "fe_model/material/isotropy.py", C + "fe_model/model.py", C + "__init__.py"],
     [("closed-form section constants", C + "fe_model/section/beam_section.py")],
     ["section and material attributes", "cantilever deflections"], "monitored construction against geometric integrals",
     "held on the sections observed; torsion of I and rectangle within the accuracy of the usual engineering formulas (0.2 %)")

prop("C13", "Quadrilateral shells have the stiffness of their elements",
     "The stiffness of a quadrilateral shell added through the model or the Api is symmetric, stores no negative energy, resists no translation, and equals the membrane (GQ12), plate (DKQ) or sum of both that its section asks for, formed in the plane of the element. It scales with thickness (membrane linearly, plate with the cube) and with the modulus, follows a change of units, and does not depend on where or in which plane the element lies, nor on other elements formed before, however alike. Its local axes are orthonormal with z normal to its plane, and its area is that of the polygon, either side up.",
     ["inputs"], "every planar convex quadrilateral, position and orientation, thickness, material and kind",
     "the tests look at one square in one plane, without comparing its stiffness",
     [C + "fe_model/element/quad/", C + "fe_model/meta/", C + "fe_model/element/__init__.py", C + "fe_model/model.py", C + "__init__.py"],
     [("compiled kernels GQ12 and DKQ, material and thickness factors", C + "fe_model/element/quad/"), ("local axes of plane elements", C + "fe_model/element/__init__.py")],
     ["Model.get_shell_K, get_shell_transform_matrix", "element area and axes"], "monitored element queries on rebuilt kernels against re-derived elements",
     "held on the elements observed, against GQ12 and DKQ re-derived in numpy; two recorded defects of the kernels are known findings")
prop("C14", "Compiled element kernels are safe, repeatable and equal to their formulation",
     "Each compiled kernel (T9, DKT, GQ12, DKQ, TMQb, TMQs) equals the formulation it is generated from for every element geometry, material and integration point. It writes every entry of its result, gives the same numbers for the same arguments whatever was called before and leaves earlier results alone. It reads and writes no memory out of bounds, performs no undefined operation, and raises a Python exception for wrong arguments.",
     ["inputs", "histories"], "every element geometry (ordinary, far away, tiny, huge, degenerate), material and integration point; every sequence of calls",
     "the tests call some kernels once on one element and cannot see memory errors or unwritten entries",
     [C + "fe_model/meta/membranes/", C + "fe_model/meta/plates/"],
     [("generated C code behind Cython wrappers", C + "fe_model/meta/")],
     ["kernel results", "sanitizer reports"], "AddressSanitizer/UBSan builds of the kernels, poisoned heap memory, and a numpy model of each formulation",
     "held on the calls observed; instrumented builds of the kernels run in a process of their own")
prop("C15", "Load patterns, cases and curves answer for exactly what was put into them",
     "Along any history of calls, a load pattern returns the loads last set on it and nothing for what was never loaded, and a load case of any kind returns the sum over its patterns, each with its current factor and, where given, its curve at the asked step (none beyond its end); loads set on a pattern after it was added to a case count. Settings, steps and supports of a case are those asked for, invalid orders are refused, and answers are copies. Curves hold exactly the samples asked for, and the load vector assembled for a case and step is the same sum.",
     ["histories", "inputs"], "every history of calls over several patterns and cases of every kind, with curves of different lengths",
     "the tests set one load in one pattern in one case",
     [C + "fe_model/load/pattern.py", C + "fe_model/load/loadcase.py", C + "fe_model/load/__init__.py", "hyperstatic/common/curve.py", C + "fe_model/assembly.py"],
     [("patterns with factors and curves in a case", C + "fe_model/load/__init__.py"), ("sampled curves", "hyperstatic/common/curve.py")],
     ["queries of LoadPattern, LoadCase and Curve", "Assembly.assemble_f, get_loadcase_setting"], "online checking of call histories against a dictionary model",
     "held on the histories observed, against a dictionary model")
prop("C16", "Released member ends act as hinges",
     "A freedom released at a member end carries nothing there, and the rest of the structure responds as if the end were free to move in that freedom: condensed stiffness, member loads, solved displacements and end forces are those of the frame with hinges, for any stable set of one or several releases. A hinge between two members in line is the same on either of them, and a member released against rotation at both ends acts as a truss bar. A member added again under its name has none of the releases of the one it replaces, releasing what carries nothing changes nothing, and only the last setting of a member's releases counts.",
     ["inputs", "histories"], "every stable set of releases, one or several per member, of forces and moments, on any frame and loading",
     "no test solves a structure with a release",
     [C + "fe_model/element/line/__init__.py", C + "fe_model/element/__init__.py", C + "fe_model/model.py", C + "__init__.py", C + "fe_post/beam.py"],
     [("static condensation of the released freedoms in stiffness and load", C + "fe_model/element/"), ("releases per member", C + "fe_model/model.py")],
     ["Model.get_beam_condensated_*, displacement files, Api results"], "monitored condensations and solves against a reference with an unknown for each released freedom",
     "held on the members and frames observed; sets of releases that make a member unstable are left out")
prop("C17", "Triangular shells have the stiffness of their elements",
     "The stiffness of a triangular shell is symmetric, stores no negative energy, resists no translation, and is the sum, in the triangle's plane, of an uncoupled membrane and the discrete Kirchhoff plate (constant curvatures give exact moments, rigid motions no force), without stiffness about the normal. It scales with thickness, modulus and units as it should, turns and moves with the element, and does not depend on which corner is listed first, nor on other elements formed before, however alike. Its area is that of the triangle and its axes are orthonormal, either side up.",
     ["inputs"], "every triangle, position and orientation, thickness and material",
     "the tests look at one or two triangles in one plane",
     [C + "fe_model/element/tria/", C + "fe_model/meta/", C + "fe_model/element/__init__.py", C + "fe_model/model.py"],
     [("compiled kernels DKT and T9", C + "fe_model/element/tria/"), ("local axes of plane elements", C + "fe_model/element/__init__.py")],
     ["Model.get_shell_K, get_shell_transform_matrix", "solved clamped plates"], "monitored element queries on rebuilt kernels against re-derived elements",
     "held on the elements observed, against DKT re-derived in numpy; the recorded defect of the membrane is a known finding")
prop("C18", "The symbolic building blocks of the elements are exact",
     "Lagrange functions of every order, in one, two or three directions, are one at their own node and zero at the others, sum to one and reproduce every polynomial of their order, and Hermite functions reproduce end values and slopes and every polynomial they can. The Jacobian is the derivative of the map from the parent element and integrates to the area; the strain operators give the derivatives that define strain, and nothing for rigid motions. The operator product applies operators to functions and multiplies numbers, and the isotropic tensor is Hooke's law.",
     ["inputs"], "every order, node, point, polynomial field, polygon and material",
     "one test prints some of the functions",
     [C + "fe_model/meta/interpolate/", C + "fe_model/meta/jacobi.py", C + "fe_model/meta/operator.py", C + "fe_model/meta/isotropy.py"],
     [("symbolic interpolation, Jacobian, operators", C + "fe_model/meta/")],
     ["returned symbolic expressions evaluated at points"], "monitored evaluation of the returned expressions against their defining properties",
     "held on the functions and points observed, against their defining properties")
prop("C19", "Seismic spectra follow the code, and response spectra the oscillator",
     "The design spectrum of GB 50011-2010, in both places it is offered, has the branches, the damping adjustment and the continuity of clause 5.1.5 and is proportional to its peak coefficient. The Duhamel integral gives the motion of the damped oscillator under a ground motion: proportional, additive and causal. A wave read from a file has the samples of the file, and its response spectra, by the integral or by Fourier transform, are the peaks, to either side, of that motion period by period.",
     ["inputs"], "every peak coefficient, characteristic period, damping ratio, period and ground motion",
     "no test calls them with a result compared",
     ["hyperstatic/app/design/GB/seismic/spectrum.py", "hyperstatic/app/seismic/wave2spec.py"],
     [("branches of the spectrum", "hyperstatic/app/design/GB/seismic/spectrum.py"), ("Duhamel integral by cumulative sums", "hyperstatic/app/seismic/wave2spec.py")],
     ["returned spectra and responses"], "monitored calls against the text of the code and an exact oscillator",
     "held on the parameters and waves observed, against clause 5.1.5 and the exact oscillator response to piecewise linear ground motion")
prop("C20", "The assembled structure is the sum of its parts, each once and in its place",
     "The stiffness, mass and load assembled for any mixture of members and shells are the sums of what the elements and nodes answer one by one, turned into global axes and put on the six freedoms of their nodes in the order of the nodes, so one more element adds exactly its own matrix, one described again under its name counts as it is described now, and the order of creating elements does not matter. The stiffness is symmetric and resists no translation, and assembling again gives the same. Applying the supports of a case drops exactly their rows and columns, and the solved displacements balance the loads with reactions at the supports only.",
     ["inputs"], "every mixture of members, triangles and quadrilaterals sharing nodes, with masses, loads and supports on model or case",
     "the tests assemble frames only, and shells never together with anything else",
     [C + "fe_model/assembly.py", C + "fe_model/model.py", C + "fe_model/element/", C + "fe_solver/static.py", C + "fe_post/node.py"],
     [("sparse assembly by node number", C + "fe_model/assembly.py"), ("removal of supported freedoms", C + "fe_model/assembly.py")],
     ["Assembly.assemble_K, assemble_M, assemble_f, assemble_boundary", "displacement files"], "monitored assemblies and solves of mixed structures against the sum of the element answers",
     "held on the structures observed, against dense summation of the elements' own answers")
prop("C21", "A saved and loaded structure goes on as if it had never been saved",
     "At any point of its description, a structure saved through the Api and loaded again, in the same or another process, answers every query as at that moment, accepts further calls with the same answers and solves to the same results, in the folder it was loaded from; results already there stay readable. Saving changes nothing, and original, loaded copies and files are independent; an assembly file is solved as it was saved, whatever becomes of the model. Missing, cut-off or foreign files load as nothing, and a save that fails says so and changes nothing in the structure.",
     ["histories", "crash_points"], "every point of every description at which it is saved, loaded, edited on, or the file cut off",
     "no test loads what it saved",
     [C + "__init__.py", C + "fe_model/assembly.py", C + "fe_solver/__init__.py", C + "fe_post/__init__.py"],
     [("pickled Api and assembly", C + "__init__.py")],
     ["queries and results of the loaded Api"], "lockstep monitoring of a loaded structure against a control that was never saved",
     "held on the histories observed, against controls that were never saved; exact comparison")

prop("C22", "The viewers show the model as saved and the results as solved",
     "Whichever viewer is opened on a saved structure, by an absolute or relative path, and whatever buttons are pressed and sliders moved in whatever order: it draws one point per node where the node is, one line per member between the nodes at its ends, one face per shell through its corners, in the same order as the model; a mark for each restrained freedom, and only for those, at its node; for each nodal force of pat1 an arrow that ends at its node, points along the force and is as long as the force is large, all to one scale. A deformed view of case1 has every node, member end and shell corner at its place plus the scale set by the slider times the node's displacement, coloured by the displacement of the same node in the direction asked for; reset brings the undeformed structure back; a button changes only what it names, and its label keeps telling what is shown. The window looks at the structure. Structures without shells, members, supports or forces are shown as well.",
     ["inputs", "histories"], "every structure, and every sequence of presses and slider positions",
     "no test opens a viewer",
     [A + "viz/viz_core/__init__.py", A + "viz/viz_core/model_basic.py", A + "viz/viz_core/model_load.py", A + "viz/viz_core/result_deformation.py", A + "viz/viz_core/viz_core_model.py", A + "viz/viz_core/viz_core_result_deformation.py"],
     [("scene of points, lines, faces, marks and arrows", A + "viz/viz_core/__init__.py"), ("deformed scene", A + "viz/viz_core/result_deformation.py")],
     ["objects handed to the drawing library"], "monitored viewer sessions on a recording stand-in for the drawing library",
     "held on the sessions observed, against the structure and displacements; what is asked to be drawn, not pixels")

prop("C23", "A project keeps what is put into it, in the units it was given in",
     "A project database answers every query for joints, frames, sections, materials, load cases and settings with what the calls so far put into it and did not delete: coordinates, the ends of a frame in the direction it was drawn, supports, loads and results stored in SI and given back in the unit set when they are asked for, whatever unit they were given in; constants of sections are the geometric ones of their dimensions. A joint is shared by everything that is drawn within the tolerance of its place, and merging joints or importing lines leaves no frame without ends, turned round, or without its joints' supports and loads. Names that are taken and things that are not there are refused and leave what was saved as it is; a project opened again holds what was saved last; the lines of an exported DXF are the frames, and importing them into an empty project gives the same frames; what was deleted leaves nothing behind and can be added again.",
     ["inputs", "histories"], "every sequence of calls on a project, in every unit system",
     "no test opens a project",
     [A + "general/model.py", A + "general/db.py", A + "general/orm.py", A + "general/environment/project.py", A + "general/object/joint.py", A + "general/object/frame.py", A + "general/property/material.py", A + "general/property/frame_section.py", A + "general/property/area_section.py", A + "general/load/loadcase.py", A + "general/result/result.py", A + "general/io/dxf.py"],
     [("unit scales", A + "general/model.py"), ("joints and their sharing", A + "general/object/joint.py"), ("frames and their direction", A + "general/object/frame.py"), ("geometric constants", A + "general/property/frame_section.py")],
     ["return values of the project's calls", "tables of the saved project", "DXF files"], "monitored histories of project calls against a dictionary in SI units",
     "held on the histories observed, against a dictionary of everything put in; areas, meshing and running a project are not part of it")

prop("C24", "Time histories follow the equation of motion",
     "A time history case with direct integration gives one row of displacements for every sample of its shortest load curve after the row of rest it starts with, such that every step satisfies the equation of motion in central differences, M a + C v + K u = f, where M and K are those of the structure under the supports of the case (else the model's), f is the sum of its patterns - loads of nodes and of members - times their factors and the sample of their curve at that step, and C is the proportional damping that has the case's damping ratio at periods of one and two seconds. What is read back for a step - displacements, end forces of members and, undamped, reactions - belongs to the displacements and the loads of that step. So it comes near the exact motion for small steps, settles to the static displacements under loads that stay, loses amplitude by the damping ratio and no energy without damping, is linear in the loads, owes nothing to loads that come later or to other cases solved before it, by the same solver or another, and starts later by as much as the loads do.",
     ["inputs", "histories"], "every structure with mass in all free directions, all curves, steps below the stability limit and damping ratios",
     "no test integrates a time history",
     [C + "fe_solver/dynamic.py", C + "fe_model/load/loadcase.py", C + "fe_model/load/__init__.py", C + "fe_model/assembly.py", C + "fe_post/node.py", C + "fe_post/beam.py", "hyperstatic/common/curve.py"],
     [("direct integration", C + "fe_solver/dynamic.py"), ("loads of a step", C + "fe_model/assembly.py"), ("curves of patterns", C + "fe_model/load/__init__.py")],
     ["rows of the displacement file", "displacements, end forces and reactions of a step"], "monitored integrations against the equation of motion, the exact solution and laws of motion",
     "held on the histories observed, against the reference matrices; modal decomposition, base cases and massless directions are not part of it")

CLAIMED = os.environ.get("CLAIMED", "").split() or None
NA = []

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            if CLAIMED and p["id"] not in CLAIMED:
                continue
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None}},
                ensure_ascii=False) + "\n")
    py = "/opt/venv/bin/python run_check.py"
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, Cython'",
           "checks": [{"property": p["id"], "quick_cmd": "%s %s --tier quick" % (py, p["id"]), "thorough_cmd": "%s %s --tier thorough" % (py, p["id"]),
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P if not CLAIMED or p["id"] in CLAIMED],
           "not_applicable": [{"property": a, "reason": b} for a, b in NA],
           "notes": "No hooks: the monitors observe through the public classes, the workspace files and rebuilt native kernels."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
