#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after edits)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'lcp_physics/physics/'
L = 'lcp_physics/lcp/'
W, B, C, J, E, F, U = [P + x + '.py' for x in (
    'world', 'bodies', 'contacts', 'constraints', 'engines', 'forces', 'utils')]
LCP, PD, LU = L + 'lcp.py', L + 'solvers/pdipm.py', L + 'util.py'

PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=()):
    PROPS.append(dict(
        row=dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                 anchors=dict(files=files,
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                              mechanism=[dict(name=a, where=b) for a, b in mech],
                              observe_at=observe, hook_needed=None)),
        technique=technique, note=note))


prop('C01', 'LCP solver returns the solution of the mixed complementarity problem',
     'For every mixed LCP (Q x + p + G\'z + A\'y = 0, G x + s = h + F z, A x = b, s,z >= 0, s\'z = 0) '
     'with Q positive definite, independent equality rows and monotone (positive semidefinite or '
     'skew) or contact-structured F that has a solution, the solver returns its x. The answer for '
     'a batch equals the answers for its members solved one by one, and the inputs are not '
     'modified.',
     ['inputs', 'configurations'],
     'all dimensions, scalings, activity patterns, with or without equalities, any batch',
     'the three solver tests check three fixed tiny problems; all other patterns of active rows, '
     'equalities, asymmetric F and batches are untested',
     [LCP, PD, LU],
     [('predictor-corrector iteration with best-iterate selection', 'pdipm.forward'),
      ('block LU of the Schur complement', 'pdipm.pre_factor_kkt, factor_kkt, solve_kkt')],
     ['return value of LCPFunction(...)(Q,p,G,h,A,b,F)'],
     'property-based testing: random problems with a constructed or independently enumerated solution',
     'Random search over problem classes whose solution is known by construction and certified '
     'in numpy; trusts numpy linear algebra.')

prop('C02', 'LCP solver gradients are the derivatives of the solution',
     'At every problem with a strictly complementary regular solution, back-propagating through '
     'the solver gives, for each of Q (symmetrised), p, G, h, A, b and F, the derivative of the '
     'returned solution with respect to that input. This holds for symmetric and non-symmetric F, '
     'with or without equality constraints, and for each member of a batch.',
     ['inputs', 'configurations'],
     'all regular problems, all inputs, all directions, all output weights',
     'no test looks at a gradient value at all',
     [LCP, PD], [('implicit differentiation of the KKT system', '_LCPFunction.backward')],
     ['.grad of each input tensor after backward()'],
     'property-based testing: autograd against finite differences of an independent numpy solution map',
     'Random regular problems; the oracle differentiates the solution map on the certified active '
     'set, in numpy.')

prop('C03', 'Contact-free steps solve the constrained Newton-Euler update',
     'When nothing is in contact, one step changes the velocities to exactly the solution of '
     'M (v1 - v0) = dt f + J\'lambda, J v1 = 0, with f the sum of the external forces at the '
     'current time and J the rows of all joints and constraints, and advances every pose by '
     'v1 dt. This holds for any number, kind, order and linking of bodies and constraints, and '
     'for initial velocities that violate the constraints.',
     ['inputs', 'configurations', 'histories'],
     'all bodies, masses, velocities, forces, constraint sets, body and constraint orders',
     'tests run single hand-made scenes to the end without looking at a velocity',
     [E, W, J, B], [('KKT solve without contacts, cached inverse', 'PdipmEngine.solve_dynamics'),
                    ('assembly of M and Je', 'World.M, World.Je')],
     ['body.v, body.p, world.t after World.step'],
     'property-based testing: differential against an independent numpy KKT solve',
     'Random scenes; oracle assembles M, J and f from the scene description.',
     [('engine.cached_inverse', 'inverse reused when all constraints are static', E)])

prop('C04', 'Contacts push only, never pull, and honour restitution',
     'After every velocity update each contact of the step separates at least as fast as '
     'restitution (the average of both bodies\') times its approach speed, contact impulses only '
     'push the bodies apart, and a contact separating faster than that bound carries no impulse. '
     'This holds simultaneously for all contacts, joints, constraints and forces of the scene, '
     'whenever such a velocity exists.',
     ['inputs', 'configurations', 'histories'],
     'all clusters of circles, rectangles and hulls, orders, masses, restitutions, frictions, '
     'forces and constraints for which the contact problem is solvable',
     'tests never inspect velocities after a collision; each reaches a handful of contacts',
     [E, W, PD, C], [('mixed LCP per step', 'PdipmEngine.solve_dynamics'),
                     ('contact Jacobian and restitution', 'World.Jc, World.restitutions')],
     ['world.contacts before, body.v after World.step'],
     'property-based testing: impulse decomposition (NNLS) over generated clusters and histories',
     'Random search; problems without a reachable solution are recognised by an independent '
     'feasibility LP and interior-point reference and left out.')

prop('C05', 'Friction obeys Coulomb\'s law',
     'The tangential impulse at every contact is at most the friction coefficient (the average of '
     'both bodies\') times the normal impulse, it is exactly that and opposes the slip where the '
     'contact slips after the update, and contacts without friction get no tangential impulse.',
     ['inputs', 'configurations', 'histories'],
     'all clusters with any friction coefficients, spins, slips, forces and constraints for which '
     'the contact problem is solvable',
     'the friction tests run one box or ball each and assert nothing about impulses',
     [E, W, PD], [('friction rows of the LCP', 'World.Jf, World.mu, World.E')],
     ['body.v before and after World.step'],
     'property-based testing: impulse must lie in the generated Coulomb cone (NNLS oracle)',
     'Random search as in C04; slip directions are taken from the resulting velocities.')

prop('C06', 'Contacts and joints between free bodies conserve momentum',
     'In every step the total linear momentum and the total angular momentum about the origin '
     'change only by the external forces and torques, as long as no body is held by a pin or '
     'static constraint; a pair that may not collide exchanges no momentum by contact.',
     ['inputs', 'configurations', 'histories'],
     'all free clusters, contact points, joints, body orders and positions',
     'no test computes a momentum',
     [W, E, C, J], [('equal and opposite rows per contact and joint', 'World.Jc, Jf, Je')],
     ['body.p, body.v, mass before and after World.step'],
     'property-based testing: conservation invariant over generated histories',
     'Random search; the invariant needs no model of the contact law.')

prop('C07', 'Contacts and joints never create kinetic energy',
     'Without external forces the kinetic energy never grows in a step, for frictionless contacts '
     'of any common restitution up to 1 and for frictional contacts without restitution, and '
     'frictionless contacts with restitution 1 keep it exactly.',
     ['inputs', 'configurations', 'histories'],
     'all force-free clusters of any bodies, masses, velocities and orders',
     'no test computes an energy',
     [E, W, PD], [('LCP is the projection in the kinetic metric', 'PdipmEngine.solve_dynamics')],
     ['body.v, mass, inertia before and after World.step'],
     'property-based testing: energy invariant over generated histories',
     'Random search; energy from independently computed masses and inertias.')

prop('C08', 'Bodies never interpenetrate during a strict simulation',
     'In a world with strict non-penetration, after every completed step, whatever was done to '
     'velocities and forces between the steps, no pair of bodies that may collide overlaps deeper '
     'than the tolerance. With post stabilization switched on the same holds.',
     ['histories', 'inputs', 'configurations'],
     'all scenes of circles, rectangles and hulls, all velocity kicks between steps, all step '
     'sizes and body orders',
     'tests only run to completion, no test measures a penetration, and none uses general hulls '
     'at speed',
     [W, C, B], [('step halving until no penetration', 'World.step_dt'),
                 ('overlap detection', 'DiffContactHandler'), ('broad phase boxes', 'Body.geom')],
     ['body.p after World.step'],
     'property-based testing: stateful histories against independent SAT geometry',
     'Random histories; penetration computed by separate numpy geometry from the scene description.')

prop('C09', 'Time steps are exact: consistent time, pose and minimal halving',
     'A step advances time by dt/2^k with the smallest k whose trial poses (start pose plus new '
     'velocity times that time) do not penetrate, and the final poses and the time are exactly '
     'those of that trial. Non-strict worlds stop halving at dt/8, and a fixed-dt step ends '
     'exactly dt later.',
     ['histories', 'inputs', 'configurations'],
     'all scenes, speeds, step sizes, strict or not, single or fixed-dt stepping',
     'no test looks at the time or pose after a step',
     [W, B, J], [('trial step, restore and halve', 'World.step_dt'), ('substeps', 'World.step')],
     ['world.t, body.p, body.v after World.step'],
     'property-based testing: trial sequence recomputed by an independent geometry oracle',
     'Random scenes with fast bodies; cases with a trial within 1e-7 of the tolerance are skipped.')

prop('C10', 'Joints and constraints hold over whole simulations',
     'After every step the relative velocity at each joint anchor and along each constrained '
     'direction is zero, a joint\'s anchor stays fixed in the frame of its first body, fixed joints '
     'keep the relative angle, constrained coordinates never change, and the gap a joint can open '
     'per step is only the second-order integration error.',
     ['histories', 'inputs', 'configurations'],
     'all joints, fixed joints, pins and axis constraints on any bodies, in any order, through '
     'contacts, halved steps and external kicks',
     'the joint tests run two scenes to completion without checking anything about the joints',
     [J, W, E, B], [('joint anchors and Jacobians', 'Joint, FixedJoint, *Constraint'),
                    ('joint reset on halving', 'World.step_dt')],
     ['joint.pos, body.p, body.v after World.step'],
     'property-based testing: invariants and drift bounds over generated histories',
     'Random histories; anchors tracked independently from the scene description.')

prop('C11', 'Circle contacts are detected exactly, with exact geometry',
     'For a circle and another circle or a convex hull at any pose, reached by any route, a '
     'contact exists iff their gap is at most eps, its penetration is the negative gap, its normal '
     'is the unit vector from the second body to the first along the closest direction, and its '
     'points, relative to each body\'s position, name one place on the segment joining the closest '
     'points of both bodies.',
     ['inputs', 'configurations', 'histories'],
     'all radii, convex polygons, relative poses, eps, orders of the two bodies, and histories of '
     'earlier poses',
     'no test compares a contact with geometry',
     [C, B, W], [('GJK and circle SAT', 'DiffContactHandler.__call__'),
                 ('broad phase spheres', 'Circle._create_geom, Hull._create_geom')],
     ['world.contacts after construction, set_p and find_contacts'],
     'property-based testing: differential against exact numpy distance computation',
     'Random pairs with gaps concentrated around the thresholds.',
     [('Hull.last_sat_idx', 'start edge carried over between detections', B)])

prop('C12', 'Hull contacts are detected exactly, with a correct manifold',
     'For two convex hulls at any pose, reached by any route, contacts exist iff no edge normal '
     'of either separates them by more than eps (save when nothing of one lies over the chosen '
     'edge of the other), the normal is the unit edge normal of largest separation pointing from '
     'second to first body, and the deepest penetration is the negative separation. Every contact '
     'point pair lies on the boundaries of both bodies at the reported penetration, one or two '
     'points spanning the overlap of the touching edges (save where a corner of one lies beside '
     'the touching edge of the other).',
     ['inputs', 'configurations', 'histories'],
     'all convex polygons and rectangles, relative poses, eps, both orders, and histories of '
     'earlier poses',
     'no test compares a contact with geometry, and no test uses hulls other than boxes in depth',
     [C, B, W], [('SAT with edge clipping', 'test_separations, clip_segment_to_line'),
                 ('broad phase boxes and spheres', 'Rect._create_geom, Hull._create_geom')],
     ['world.contacts after construction, set_p and find_contacts'],
     'property-based testing: differential against independent SAT and clipping in numpy',
     'Random pairs, including exactly parallel edges; ties between edges skipped.',
     [('Hull.last_sat_idx', 'start edge carried over between detections', B)])

prop('C13', 'Mass properties and placement of bodies are exact',
     'Every body has the area centroid of its shape as position, the given mass, and the moment '
     'of inertia of the uniform shape about it; a hull\'s world vertices are where the caller put '
     'them, a rectangle\'s where its centre, size and angle say. None of this depends on which '
     'vertex a hull starts with, on the reference point, or on where the vertices lie relative to it.',
     ['inputs', 'configurations'],
     'all convex polygons, reference points, starting vertices, rectangles, circles, masses',
     'no test checks an inertia or centroid',
     [B], [('shoelace centroid and inertia', 'Hull._get_centroid, _get_ang_inertia'),
           ('mass matrix', 'Body.__init__')],
     ['body.pos, body.verts, body.M, body.ang_inertia'],
     'property-based testing: differential against triangle decomposition; metamorphic relations',
     'Random polygons.')

prop('C14', 'Bodies move rigidly and collide where they are',
     'After any sequence of moves and pose settings a body\'s vertices are its original shape '
     'turned by its current rotation and placed at its current position, its rotation, position and pose '
     'agree, and collision detection sees it at exactly that pose.',
     ['histories', 'inputs'],
     'all shapes and all sequences of moves, pose settings and steps',
     'no test looks at vertices or moves a body by hand',
     [B, W], [('incremental vertex rotation', 'Hull.set_p, rotate_verts'),
              ('broad phase geometry follows', 'Body.set_p')],
     ['body.p, body.rot, body.pos, body.verts, world.contacts'],
     'property-based testing: stateful sequences against a rigid-transform model',
     'Random sequences of operations, differential with a freshly built world.')

prop('C15', 'Forces act on their body, at their time, and add up',
     'A free body under any set of forces follows semi-implicit Euler with the sum of all of them '
     'evaluated at the time the step starts: gravity accelerates every body by g downwards '
     '(positive y) whatever its mass, a custom force is its function of time times its multiplier, '
     'and the built-in impulses act in their own direction only before t = 0.1.',
     ['inputs', 'configurations', 'histories'],
     'all masses, forces, combinations, times, step sizes and sharing of functions between bodies',
     'tests add forces to scenes but check no trajectory',
     [F, B, W], [('force evaluation', 'ExternalForce, Gravity, Body.apply_forces')],
     ['body.p, body.v over time'],
     'property-based testing: differential against a closed reference integrator',
     'Random force sets and histories.')

prop('C16', 'Simulation gradients are the derivatives of the simulation',
     'Back-propagating a function of the final state of a simulation gives its derivative with '
     'respect to masses, sizes, vertices, initial poses and velocities, friction, restitution, '
     'joint positions, gravity and forces, through contacts, joints, constraints and any number of '
     'steps, wherever the simulation is differentiable and its contact problems are regular '
     '(exactly parallel touching edges and contacts jammed by constraints are not).',
     ['inputs', 'configurations', 'histories'],
     'all scenes, parameters and directions away from event changes',
     'the inference test only checks that an optimisation of one parameter runs',
     [LCP, PD, W, E, C, B, J], [('autograd through detection, dynamics and integration',
                                 'DiffContactHandler, PdipmEngine, World.step_dt')],
     ['.grad of parameters after World.step'],
     'property-based testing: autograd against Richardson finite differences with kink detection',
     'Random scenes and directions; cases where the finite differences do not converge are skipped.')

prop('C17', 'Physics does not depend on frame, body order or units',
     'Translating or rotating a scene with its forces, listing its bodies, constraints or vertices in '
     'another order, mirroring it, or using other units of mass, length or time, leads to the same '
     'motion, transformed accordingly.',
     ['inputs', 'configurations'],
     'all scenes with a unique contact solution, all transformations',
     'no test compares two simulations',
     [W, E, C, B, J, PD], [('frame-free formulation', 'Jc, Jf, Je, detection')],
     ['body.p, body.v of two simulations'],
     'property-based testing: metamorphic relations between transformed simulations',
     'Random scenes and transformations; steps near a decision threshold are skipped.')

prop('C18', 'Only pairs that may collide do',
     'Bodies declared not to collide with each other never get a contact and pass through each other, in '
     'either direction of the declaration, while all their contacts with other bodies stay as '
     'they would be without the declaration, and pairs not so declared keep theirs, jointed or '
     'not.',
     ['inputs', 'configurations', 'histories'],
     'all scenes and all sets of excluded pairs, declared from either side, before or after the '
     'world was made',
     'tests exclude a pair or two and assert nothing about contacts',
     [B, C, W], [('no_contact sets', 'Body.add_no_contact, handler guard')],
     ['world.contacts'],
     'property-based testing: differential of detection with and without exclusions',
     'Random overlapping clusters and exclusion sets.')

prop('C19', 'Worlds are independent and deterministic',
     'Running the same scene twice gives the same trajectory, and worlds stepped in any '
     'interleaving, of any sizes and settings, behave exactly as each does alone.',
     ['schedules', 'histories', 'configurations'],
     'all sets of worlds and all interleavings of their steps',
     'every test runs one world at a time',
     [PD, E, W, C], [('module-level caches keyed by size', 'pdipm.factor_kkt_eye'),
                     ('per-engine inverse', 'PdipmEngine.cached_inverse')],
     ['body.p, body.v, world.t'],
     'property-based testing: random schedules, differential against isolated runs',
     'Random interleavings of 2-4 worlds.',
     [('factor_kkt_eye', 'cached mask shared by all solves', PD)])

prop('C20', 'The state of the bodies determines the future',
     'A world rebuilt from the poses, velocities and parameters of a running one (and its joints '
     'at their current anchors) continues exactly as the original, and so does one without joints '
     'whose bodies were set back to an earlier state.',
     ['histories', 'crash_points', 'inputs'],
     'all scenes, all moments of interruption',
     'no test restarts a simulation',
     [W, B, J, C, E], [('no hidden state beyond pose, velocity, anchors', 'World, Body, Joint')],
     ['body.p, body.v, world.contacts of original and rebuilt world'],
     'property-based testing: restart at a random point, differential continuation',
     'Random scenes and restart points; steps near a decision threshold are skipped.',
     [('Hull.last_sat_idx, Hull.verts', 'history-dependent caches', B)])

prop('C21', 'Post stabilization corrects positions only, and never hurts',
     'Stabilization changes neither velocities nor time, leaves scenes without constraint '
     'error as they are, does not let bodies interpenetrate, keeps the centre of mass of free '
     'bodies, halves the gap a joint opened in a step, and keeps joint gaps over a simulation '
     'no larger than they would be without it.',
     ['histories', 'inputs', 'configurations'],
     'all jointed and contacting scenes stepped with stabilization on',
     'no test checks what stabilization changes',
     [E, W, J], [('position correction', 'PdipmEngine.post_stabilization, World.step_dt')],
     ['body.p, body.v, world.t with and without post_stab'],
     'property-based testing: differential between stabilized and plain steps',
     'Random scenes; one-step differential from equal states, and drift over histories.')

prop('C22', 'Invalid starts are rejected, valid ones accepted',
     'A strict world refuses exactly the initial configurations in which some pair that may '
     'collide overlaps deeper than the tolerance, a non-strict world refuses none, and a hull '
     'accepts exactly the vertex lists of at least three points in its documented orientation '
     '(counter-clockwise in x-right y-up axes).',
     ['inputs', 'configurations'],
     'all initial configurations and tolerances, all vertex lists of simple polygons',
     'no test starts an invalid world or hull',
     [W, B, C], [('assertion at start', 'World.__init__'), ('orientation test', 'Hull._is_clockwise')],
     ['AssertionError from World(...) and Hull(...)'],
     'property-based testing: acceptance predicate against independent geometry',
     'Random configurations near the thresholds.')

prop('C23', 'Both contact handlers agree on circles',
     'For worlds of circles the ODE based contact handler yields the same contacts as the '
     'differentiable one with twice its contact distance (it pads both bodies), with the same '
     'normals, points and penetrations, and the same simulation.',
     ['inputs', 'configurations', 'histories'],
     'all circle scenes, eps and orders',
     'no test uses the ODE handler',
     [C, B], [('penetration corrected by the padding of the geometry', 'OdeContactHandler')],
     ['world.contacts, body.p, body.v'],
     'property-based testing: differential between the two handlers',
     'Random circle clusters.')

prop('C24', 'Running, recording and drawing do not change the simulation',
     'run_world steps the world until the run time is reached, exactly as stepping it by hand '
     'would, with or without a screen or recorder, unless the window is closed, which ends it; the '
     'recorder writes one consecutively numbered frame each time another recording interval has '
     'passed, and drawing a body or joint changes nothing and covers its shape on the screen.',
     ['configurations', 'histories', 'inputs'],
     'all scenes, run times, recording intervals, screens',
     'tests call run_world without looking at the result, and never with a screen by default',
     [W, U, B, J], [('main loop', 'run_world'), ('frames', 'Recorder.record')],
     ['body.p, world.t, files written'],
     'property-based testing: differential between run_world variants and manual stepping; '
     'recorder against a counter model',
     'Random scenes; frames in a scratch directory.')

prop('C25', 'Precision, argument forms and defaults',
     'A body built from tensors keeps their dtype for all of its quantities, whichever argument '
     'they come in and over the whole simulation, with forces and joints of any kind, and a '
     'simulation in single precision follows the double precision one within single precision '
     'accuracy. Lists, tuples, arrays and tensors are interchangeable as arguments, two coordinates '
     'mean no rotation, omitted arguments of bodies, forces and worlds take the defaults, and '
     'the arguments themselves are left as they were.',
     ['inputs', 'configurations'],
     'all body kinds, dtypes and arguments given as tensors or plain numbers',
     'all tests use double precision',
     [B, U, F, E], [('base tensor', 'Body._set_base_tensor, get_tensor')],
     ['dtype and values of body attributes, trajectories'],
     'property-based testing: metamorphic relation between precisions and argument forms',
     'Random scenes; single precision is compared up to the first contact step.')

NOT_BUILT = 'no check built (yet)'


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(V, 'lcpv')) if f[0] == 'c' and f[1:3].isdigit()}
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p['row']) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['row']['id']
        if i in built:
            checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i,
                               thorough_cmd='python3 check.py %s thorough' % i,
                               evidence_file='evidence/%s.json' % i,
                               technique=p['technique'], level='exploration',
                               level_note=p['note']))
        else:
            na.append(dict(property=i, reason=NOT_BUILT))
    man = dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks,
               not_applicable=na)
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
