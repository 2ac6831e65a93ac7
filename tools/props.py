# -*- coding: utf-8 -*-
"""Single source of properties.jsonl, MANIFEST.json and the property part of known_findings.json (run tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, level=None, note=None, na=None, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, note=note, na=na, state=list(state), observe=list(observe)))


PROOF = ('Every obligation generated from the current source is discharged for all real-valued inputs and all branches '
         '(no bound); doubles are read as real numbers. ')
BND = ('Functions whose loops run over containers are executed for containers of the stated small sizes with arbitrary contents '
       '(labelled bounded in the evidence, not counted as proved); the rest is proved without bound. ')

prop('C01', 'Contact laws respect action-reaction and moment balance',
     'Whatever the state of a contact between two bodies, the forces a contact law applies to the two bodies sum to zero, the resulting moments about any point balance (also across a periodic boundary), and no third body is loaded. '
     'A law that declares the contact broken in this step applies no force for it.',
     ['inputs', 'configurations', 'histories'],
     'all positions, velocities, radii, stiffnesses, stored forces, flags of the laws, periodic shifts, contact ages',
     'Unit tests run a few packings; a wrong lever arm or sign in one branch of one law (periodic, cohesive, broken) is not sampled and gives plausible motion.',
     ['pkg/dem/ElasticContactLaw.cpp', 'pkg/dem/HertzMindlin.cpp', 'pkg/dem/CohesiveFrictionalContactLaw.cpp', 'pkg/dem/ViscoelasticPM.cpp', 'pkg/dem/LudingPM.cpp',
      'pkg/dem/FrictViscoPM.cpp', 'pkg/dem/ConcretePM.cpp', 'pkg/dem/JointedCohesiveFrictionalPM.cpp', 'pkg/dem/WirePM.cpp', 'pkg/dem/MortarMat.cpp', 'pkg/dem/InelastCohFrictPM.cpp', 'pkg/dem/L3Geom.cpp', 'pkg/common/Dispatching.hpp'],
     [('LawFunctor::go of each law', 'pkg/dem/*.cpp'), ('LawFunctor::applyForceAtContactPoint', 'pkg/common/Dispatching.hpp')],
     'proof', PROOF + 'Force recording replaces the force container (C05); contact geometry is assumed as C03 establishes it.')
prop('C04', 'Time integration follows the discretised equations of motion',
     'In one step each free body gains dt times its damped acceleration (force over mass plus gravity, torque over inertia) in every degree of freedom that is not blocked, blocked degrees keep their velocity, and position and orientation advance by the new velocity over dt, orientation staying a unit rotation. '
     'Local damping never adds energy, does not act on bodies that are not to be damped, and in a periodic cell acts on the fluctuation velocity only while the mean-field velocity follows the velocity gradient of the cell. '
     'Clump members, bodies outside the mask and bodies of other subdomains are not moved, one body never influences the integration of another, and the kinetic energy reported is that of translation plus rotation about the body axes.',
     ['inputs', 'configurations'],
     'all forces, velocities, masses, inertias, orientations, damping values, blocked-DOF masks, cell velocity gradients',
     'Regression tests use spheres with default flags; combinations of blocked DOFs, damping, periodic mean field and aspherical bodies are not sampled.',
     ['pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/NewtonIntegrator.hpp', 'core/State.cpp', 'core/Cell.hpp'],
     [('NewtonIntegrator::action / leapfrog*', 'pkg/dem/NewtonIntegrator.cpp')],
     'proof', PROOF + 'The loop over bodies is entered with one body (two for the frame condition).')
prop('C05', 'Forces on a body are the exact sum of all contributions',
     'After synchronisation the force, torque, displacement and rotation read for any body equal the sum of everything added for it since the last reset by any thread in any order, plus its permanent force and torque, and nothing added for one body shows up on another. '
     'Resetting removes the contributions but keeps permanent ones; reading before synchronisation is refused; sizes only grow.',
     ['histories', 'schedules', 'inputs'],
     'all sequences of additions, resets, synchronisations and permanent settings, over any body ids and thread attribution',
     'Tests run with one or two threads on fixed scenarios and never interleave permanent forces, id growth and resets.',
     ['core/ForceContainer.hpp', 'core/ForceContainerParallel.cpp'],
     [('ForceContainer add/sync/reset', 'core/ForceContainerParallel.cpp')],
     'other', BND + 'Arbitrary admissible container state of up to 3 bodies and 2 threads, one arbitrary operation.')
prop('C07', 'Interaction container is a faithful set of unordered body pairs',
     'At any time the stored contacts, their enumeration and the per-body lists of contacts describe the same set of unordered pairs, each pair at most once, and lookup by the two ids in either order finds exactly those. '
     'Insertion of a new pair of existing bodies succeeds and of a present one is refused without change; erasing removes exactly the named pair; removal of non-real contacts, clearing, and saving followed by loading keep exactly what they should, also after bodies have been erased or their ids used again.',
     ['histories', 'inputs', 'schedules'],
     'all sequences of insertion, erasure, conditional erasure (sequential or multi-threaded), clearing, saving and loading',
     'Tests insert and erase a handful of interactions; consistency of the two representations under erasure of bodies and id reuse is not examined.',
     ['core/InteractionContainer.cpp', 'core/InteractionContainer.hpp', 'core/Interaction.cpp', 'core/BodyContainer.cpp'],
     [('linear list + per-body maps', 'core/InteractionContainer.cpp')],
     'other', BND + 'All containers with up to 3 interactions among 4 bodies, one arbitrary operation after any construction order.')
prop('C08', 'Body ids, flags and clump membership stay consistent',
     'A body added gets an unused id and is found under it until erased; erasing one body leaves the others in place, iteration visits exactly the existing bodies in order of id, and an erased id can be used again. '
     'Every body is exactly one of standalone, clump or clump member; adding, releasing and erasing members or clumps keeps both sides of the membership in agreement, and properties of bodies (dynamic, bounded, aspherical, masks) are set independently of each other.',
     ['histories', 'inputs'],
     'all sequences of insertions, erasures and clump operations, all flag and mask values',
     'Tests cover creation of a few bodies and one clump; holes in the id space and repeated membership changes are not combined.',
     ['core/BodyContainer.cpp', 'core/BodyContainer.hpp', 'core/Body.cpp', 'core/Body.hpp', 'core/Clump.cpp'],
     [('BodyContainer insert/erase/iterator', 'core/BodyContainer.cpp'), ('Clump::add/del', 'core/Clump.cpp')],
     'other', BND + 'Containers of up to 5 slots with any occupation, clumps of up to 3 members.')
prop('C09', 'No overlapping pair of bounds is ever missed by collision detection',
     'After each run of the collider every pair of bodies which may collide and whose bounding boxes overlap, directly or through the periodic boundary, is a potential contact (with the right periodic image), and a potential contact whose boxes are apart is dropped while real ones are kept. '
     'This holds after any motion of the bounds, bodies added, erased, replaced or bounded later, contacts cleared, and changes of periodicity; the collider runs whenever any of these or too large a motion requires it.',
     ['histories', 'inputs', 'configurations'],
     'all motions of the bounding boxes between runs, sort axes, sorting modes, periods and histories of body insertion and removal',
     'Tests check contact counts in one packing; a lost pair needs a particular order of bound inversions or period crossings.',
     ['pkg/common/InsertionSortCollider.cpp', 'pkg/common/InsertionSortCollider.hpp', 'core/InteractionContainer.hpp'],
     [('sorted bound lists, inversion handling', 'pkg/common/InsertionSortCollider.cpp')],
     'other', BND + 'Collider runs with 2 and 3 bodies whose bounds are arbitrary along one axis; the overlap predicates and wrapping are proved without bound.')
prop('C10', 'The collision filter decides exactly by masks, clumps and subdomains',
     'Two bodies may collide exactly when both exist, their masks share a bit, they are not both of one identical mask excluded from self-interaction, neither is a clump itself, they are not members of one clump, and at least one belongs to the subdomain being handled without being the box of their common subdomain. '
     'The decision does not depend on the order of the two bodies.',
     ['inputs', 'configurations'],
     'all mask values, clump and subdomain memberships, self-interaction masks',
     'Tests use default masks almost exclusively.',
     ['pkg/common/Collider.cpp', 'core/Body.hpp'],
     [('Collider::mayCollide', 'pkg/common/Collider.cpp')],
     'proof', PROOF + 'Masks are 32-bit words (bit-vector logic).')
prop('C12', 'Clumps move and weigh as rigid aggregates of their members',
     'Mass, centroid, principal inertia and orientation of a clump are those of the rigid aggregate of its members (of the union of volumes, on the integration grid, where spheres overlap and a discretisation is given), and computing them moves no member. '
     'When the clump moves, each member keeps its relative pose and takes the velocity of the rigid motion, and the force and moment on the clump equal those of the forces on its members about any point.',
     ['inputs', 'configurations'],
     'all member positions, orientations, radii, densities, masses and inertias, all clump poses and velocities, all member forces',
     'Tests use one or two clumps of spheres in standard orientation; errors in tensor transport, handedness of principal axes or velocity transfer need unsymmetric members.',
     ['core/Clump.cpp', 'core/Clump.hpp'],
     [('Clump::updateProperties, moveMembers, addForceTorqueFromMembers', 'core/Clump.cpp')],
     'other', BND + 'Aggregates of 1, 2 and 3 members; overlapping spheres on fixed grids. The eigen-decomposition is an assumed contract.')
prop('C13', 'Bounding boxes always enclose their bodies',
     'The bounding box given to any sphere, box, facet, wall, cylinder, grid connection, particle facet or tetrahedron contains the whole shape in its current pose (times the enlargement factor where there is one), for spheres and facets also in a periodic cell skewed along any axes. '
     'It is then enlarged so that any displacement of the body below the recorded sweep length, in a skewed cell too, keeps the shape inside; position and step of the update are recorded, every existing bounded body is updated, and bodies that are not to be bounded get no box.',
     ['inputs', 'configurations'],
     'all poses, dimensions, enlargement factors, cell skews, sweep settings and displacements',
     'Tests use axis-aligned poses in unskewed cells; a box that is too small only shows as a contact detected late in a particular direction.',
     ['pkg/common/Bo1_Aabb.cpp', 'pkg/common/Wall.cpp', 'pkg/common/Cylinder.cpp', 'pkg/common/Grid.cpp', 'pkg/common/PFacet.cpp', 'pkg/dem/Tetra.cpp', 'pkg/common/Dispatching.cpp'],
     [('Bo1_*_Aabb::go', 'pkg/common/Bo1_Aabb.cpp'), ('BoundDispatcher::processBody', 'pkg/common/Dispatching.cpp')],
     'proof', PROOF + 'The loop over all bodies is a bounded stand-in (3 bodies).')
prop('C11', 'The periodic cell deforms, wraps and measures as documented',
     'In each step the deformation gradient and the base vectors of the periodic cell are advanced by the velocity gradient, and sizes, skew transformation and its inverse, volume, image offsets and image velocities agree with the current base vectors; a cell without volume is refused. '
     'Any point is wrapped into the cell by an integer combination of base vectors, which is reported as its period. Assigning box, base vectors, sizes, deformation or velocity gradient changes exactly what is documented, and the strain measures, spin and polar decomposition of the deformation satisfy their definitions.',
     ['inputs', 'configurations'],
     'all cell shapes and deformations, velocity gradients, time steps, points and periods',
     'Tests check a few numeric cells, mostly boxes and symmetric gradients.',
     ['core/Cell.cpp', 'core/Cell.hpp', 'lib/base/Math.hpp'],
     [('Cell::integrateAndUpdate', 'core/Cell.cpp'), ('wrapping, setters, strain measures', 'core/Cell.hpp')],
     'proof', PROOF + 'The singular value decomposition of the linear algebra library is an assumed contract.')
prop('C14', 'Every contact goes through geometry, physics and law exactly once per step',
     'In each step every potential contact between existing bodies of the subdomain handled, neither of them a clump itself, is given to the geometry functor declared nearest to the two shape classes, in the declared order of the bodies, with their own states and the right periodic image; if it has geometry it is given once to the physics and then once to the law functor, and the step in which it became real is recorded. '
     'A contact without geometry, refused by the law, or whose body has vanished is no longer real and exerts no force; callbacks see only real contacts. Explicit creation of a contact uses the nearest periodic image and the same dispatch, and reports failure only when forced.',
     ['inputs', 'histories', 'configurations'],
     'all combinations of shapes, orders, periods, existing or new contacts, functor results and class hierarchies',
     'Tests run a few packings of one or two shapes; reversed pairs across the periodic boundary or contacts lost in the step of creation are not reached.',
     ['pkg/common/InteractionLoop.cpp', 'pkg/common/Dispatching.cpp', 'lib/multimethods/DynLibDispatcher.hpp', 'core/Dispatcher.hpp', 'core/Interaction.cpp'],
     [('InteractionLoop::action', 'pkg/common/InteractionLoop.cpp'), ('IGeomDispatcher::explicitAction', 'pkg/common/Dispatching.cpp'), ('dispatch matrix', 'lib/multimethods/DynLibDispatcher.hpp')],
     'proof', PROOF + 'Functors are recording stand-ins with arbitrary results; the dispatch matrix is checked for all subsets of five functors over five classes; several contacts at once is a bounded stand-in (3 contacts).')
prop('C03', 'Contact geometry is that of the two shapes in contact',
     'For a sphere with a sphere, facet, wall or box, across any periodic boundary and in either order of the two bodies, the contact exists exactly when the shapes are nearer than the interaction range allows (or it already exists or is forced), and its unit normal, penetration depth, contact point and radii are those of the closest points of the two shapes. '
     'From step to step the shear direction stays tangent to the contact and turns with it, the tangential relative velocity is that of the two material points in contact (with the options against ratcheting and for the velocity of the periodic image as documented), and the relative rotation of the two bodies is split into twist and bending. '
     'Turning the whole scene turns all results with it.',
     ['inputs', 'configurations', 'histories'],
     'all positions, orientations, radii, velocities, periodic images, stored normals and options',
     'Tests look at a few spheres; contact with edges and vertices of facets, reversed orders, periodic images and turned boxes are hardly touched.',
     ['pkg/dem/ScGeom.cpp', 'pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp', 'pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp', 'pkg/dem/Ig2_Box_Sphere_ScGeom.cpp', 'pkg/dem/L3Geom.cpp', 'pkg/common/Facet.cpp'],
     [('Ig2_*::go/goReverse', 'pkg/dem/Ig2_*_ScGeom.cpp'), ('ScGeom::precompute, rotate, getIncidentVel', 'pkg/dem/ScGeom.cpp'), ('Ig2_*_L3Geom', 'pkg/dem/L3Geom.cpp')],
     'proof', PROOF + 'Facets without shrinking and with the position of the body at the incentre; relative rotations below the round-off threshold of the code are left out.')
prop('C15', 'The simulation loop runs every engine exactly as scheduled',
     'In each step the periodic cell is advanced first and then every engine of the list that is not dead and is activated runs exactly once, in order and on the scene being stepped; then step count and time advance by one step and its length. Stepping engine by engine gives the same sequence, a new list of engines takes effect only at the start of a step, and a step in which an engine fails does not advance step count or time. '
     'Engines with a period run when the given number of steps, simulated or real time has passed, at most the given number of times, and parallel groups run each of their active engines once in order. A continuous run makes full steps and stops after the one in which the requested step number or time is reached.',
     ['histories', 'inputs', 'configurations'],
     'all engine lists, dead and inactive engines, periods and counts, switches of sub-stepping, engine replacement and failures in mid-step',
     'Tests run plain loops; replacing engines in the middle of a step, leaving sub-stepping, and failing engines are not combined.',
     ['core/Scene.cpp', 'core/SimulationFlow.cpp', 'pkg/common/PeriodicEngines.hpp', 'pkg/common/ParallelEngine.cpp', 'core/TimeStepper.hpp'],
     [('Scene::moveToNextTimeStep', 'core/Scene.cpp'), ('SimulationFlow::singleAction', 'core/SimulationFlow.cpp'), ('PeriodicEngine::isActivated', 'pkg/common/PeriodicEngines.hpp')],
     'other', BND + 'Lists of up to 3 engines (labelled bounded); schedules of a periodic engine and time step changes are proved for all values.')
