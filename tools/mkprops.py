"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def p(i, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))


K = ['src/batoid.cpp', 'batoid/trace.py']
p('C01', 'Failed rays stay failed, stay vignetted and are never altered',
  'A ray that cannot interact with a surface (it misses it, or is totally reflected) comes out failed and vignetted, and '
  'one whose interaction succeeds is not failed by it. Once a ray is failed every later surface interaction leaves all of '
  'its stored quantities untouched and no operation clears the failed flag. Failed always implies vignetted.',
  ['inputs', 'histories'], 'every ray state, surface, medium, coating and coordinate system, through any sequence of operations',
  'tests check a few bundles of rays that mostly hit; the rule is about every ray state on every path of every kernel',
  K, [('per-ray guard on the failed flag', 'src/batoid.cpp intersect/reflect/refract/rSplit/refractScreen')],
  ['RayVector.failed', 'RayVector.vignetted'])
p('C02', 'Rays are processed independently of each other and of the thread count',
  'Every per-ray operation gives each ray the result it would get alone: each ray of the batch is processed exactly once, and '
  'no ray reads or writes another ray\'s data or shared mutable state. Results therefore do not depend on batch composition, '
  'ray order, the number of threads or their interleaving.',
  ['schedules', 'inputs'], 'all interleavings of the parallel loops, all thread counts, all batch sizes',
  'a test observes one schedule on one machine; a race or a cross-ray access shows only on some',
  ['src/batoid.cpp', 'src/rayVector.cpp', 'src/surface.cpp', 'src/table.cpp', 'src/medium.cpp', 'src/obscuration.cpp'],
  [('OpenMP loops over the ray index with only iteration-local state', 'src/batoid.cpp, src/rayVector.cpp')])
p('C03', 'Vignetting only accumulates, by exactly the obscuration\'s region',
  'Applying an obscuration vignettes exactly the rays whose position in the obscuration\'s coordinate system lies in its region, '
  'and keeps already vignetted rays vignetted. It changes nothing else about any ray. No operation ever un-vignettes a ray.',
  ['inputs', 'histories'], 'all rays, obscurations, coordinate systems and operation sequences',
  'tests sample positions away from earlier vignetting; monotonicity is a statement over histories',
  ['src/batoid.cpp', 'batoid/trace.py', 'batoid/obscuration.py'], [('vignetted |= contains(x, y)', 'src/batoid.cpp obscure')],
  ['RayVector.vignetted'])
p('C04', 'Rays always carry the coordinate system their numbers are expressed in',
  'After any operation with a target coordinate system, positions and velocities of every ray are expressed in that system and '
  'the ray bundle is labelled with it; without one, the bundle\'s own system is used. Forward and reverse transforms are exact '
  'inverses and are rigid: they move positions by rotation and shift, velocities by rotation only, and nothing else changes.',
  ['inputs', 'histories'], 'all coordinate systems and chains of transforms, with failed rays in the bundle or not',
  'tests compare a few random transforms; a frame slip in one kernel or wrapper branch shows only for tilted, shifted frames',
  ['src/batoid.cpp', 'batoid/trace.py', 'batoid/coordTransform.py', 'batoid/rayVector.py'],
  [('dr/drot transform applied in each kernel', 'src/batoid.cpp'), ('rv.coordSys = coordSys', 'batoid/trace.py')],
  ['RayVector.coordSys', 'RayVector.r', 'RayVector.v'])
p('C05', 'Reflection, refraction and phase screens obey their laws exactly',
  'Reflection mirrors the velocity in the local surface normal; refraction obeys Snell\'s law with both media, crosses the surface, '
  'leaves with speed 1/n of the outgoing medium and happens exactly when not totally reflected; plain intersection keeps the velocity. '
  'A phase screen keeps the speed, adds its gradient to the tangential direction cosines and adds its value to the ray time, whichever side '
  'the ray comes from.', ['inputs'],
  'all ray directions (either side of the surface), surfaces, media and wavelengths',
  'tests check random rays travelling one way; sign conventions for the opposite direction or steep incidence are not sampled',
  K, [('normal flip by sign of incidence cosine', 'src/batoid.cpp refract/rSplit'), ('orthonormal basis decomposition', 'src/batoid.cpp refractScreen')],
  ['RayVector.v', 'RayVector.t'])
p('C06', 'Coatings scale flux exactly once and splitting conserves bookkeeping',
  'An interaction with a coating multiplies each interacting ray\'s flux once by the transmission (passing or refracted) or reflection '
  '(reflected) coefficient evaluated at that ray\'s wavelength and incidence angle, and leaves flux alone without a coating. A split sends '
  'both products from the same point and time with flux weighted by the two coefficients. Wavelength never changes.',
  ['inputs'], 'all rays, coatings and interaction kinds, including failed rays',
  'tests use constant coatings, for which swapped arguments, wrong angles or double application in one branch can cancel',
  ['src/batoid.cpp', 'src/coating.cpp', 'batoid/trace.py', 'batoid/coating.py'], [('coating branch in each kernel', 'src/batoid.cpp')],
  ['RayVector.flux', 'RayVector.wavelength'])
p('C07', 'Surface heights follow their formulas and normals match the heights',
  'Each surface type\'s height is the documented function of its parameters at every point, and its normal is the upward unit vector '
  'perpendicular to that height function at that point (equivalently, its gradient is the derivative of its height). '
  'A sum of surfaces has the sum of the heights and of the gradients.', ['inputs'],
  'all points and all surface parameters (conic constants, aspheric orders, coefficients, orientations)',
  'tests spot-check numeric derivatives at typical parameters; special cases (conic constant 0 or -1, x=y=0, high orders) are not reached',
  ['src/plane.cpp', 'src/sphere.cpp', 'src/paraboloid.cpp', 'src/quadric.cpp', 'src/asphere.cpp', 'src/tilted.cpp', 'src/sum.cpp',
   'src/polynomialSurface.cpp', 'src/bicubic.cpp', 'src/surface.cpp'], [('sag / normal / grad overrides', 'src/*.cpp')],
  ['Surface.sag', 'Surface.normal'])
p('C08', 'Reported intersections lie on the surface and rays advance consistently',
  'When a surface reports a hit, the ray advanced by the reported time lies on the surface (exactly for the analytic surfaces, within the '
  'iteration tolerance otherwise), and a surface never reports a hit it did not reach. Every interaction moves the ray to that point and '
  'advances its time by the same amount.', ['inputs'],
  'all ray positions, directions and surface parameters, including rays parallel to an axis and degenerate quadratics',
  'tests trace generic rays; degenerate coefficients and non-converged iterations are rare inputs',
  ['src/surface.cpp', 'src/plane.cpp', 'src/sphere.cpp', 'src/paraboloid.cpp', 'src/quadric.cpp', 'src/tilted.cpp', 'src/batoid.cpp'],
  [('timeToIntersect overrides and Newton iteration', 'src/*.cpp')], ['Surface.intersect', 'RayVector.failed'])
p('C09', 'Obscuration regions are the documented shapes under exact boolean algebra',
  'Circle, annulus, rectangle (at any angle), ray (bar) and polygon obscurations contain exactly the points of the documented shape, for '
  'every centre and orientation. Negation, union and intersection are the exact complement, disjunction and conjunction of their parts. '
  'Grid evaluation agrees with pointwise evaluation.', ['inputs'],
  'all points, shape parameters and nestings of the combinators',
  'tests compare with similar formulas at random points for a few shapes; grid evaluation and nesting are barely sampled',
  ['src/obscuration.cpp', 'include/obscuration.h', 'batoid/obscuration.py'], [('contains overrides', 'src/obscuration.cpp')],
  ['Obscuration.contains', 'ObscPolygon.containsGrid'])
p('C10', 'Refractive index follows each medium\'s dispersion formula',
  'Constant, tabulated, Sellmeier, Sumita and air media return, for every wavelength in metres, the index given by their documented formula '
  'with their own coefficients; a table interpolates linearly between its neighbouring nodes and is never read outside its arrays.',
  ['inputs'], 'all wavelengths and coefficients, table lengths and nodes including the end points',
  'tests compare a few wavelengths of a few glasses; end points and out-of-range wavelengths are not exercised',
  ['src/medium.cpp', 'include/medium.h', 'batoid/medium.py'], [('getN overrides', 'src/medium.cpp')], ['Medium.getN'])
p('C11', 'Arrays handed to native code have the right type, length and lifetime',
  'Whatever arrays or scalars a user supplies, the native layer only ever receives contiguous buffers of the expected element type and '
  'length, which stay alive and fixed for as long as the native object uses them. Arguments that cannot be so represented are rejected.',
  ['inputs', 'histories'], 'all argument types (lists, integers, strided or foreign-dtype arrays) and all object lifetimes',
  'tests pass float64 arrays that happen to be contiguous; a wrong dtype or an early free is memory corruption that may go unseen',
  ['batoid/rayVector.py', 'batoid/surface.py', 'batoid/medium.py', 'batoid/obscuration.py', 'batoid/trace.py', 'pysrc'],
  [('np.ascontiguousarray / asfortranarray(dtype=float) before ctypes.data', 'batoid/*.py')])
p('C12', 'Library calls never modify their arguments unless documented as in-place',
  'Constructing rays, surfaces, media, obscurations or optics, parsing configurations and computing analyses leave every array, '
  'dictionary, optic and ray bundle passed in unchanged and not aliased by mutable results. Only the in-place operations '
  '(propagate, toCoordSys, trace and the interaction functions it is built on) change the ray bundle they are given, and nothing else.', ['inputs', 'histories'],
  'all argument kinds and repeated calls with the same objects', 'tests rarely look at arguments after a call or reuse them',
  ['batoid/rayVector.py', 'batoid/optic.py', 'batoid/parse.py', 'batoid/analysis.py', 'batoid/trace.py'],
  [('copies before in-place work', 'batoid/*.py')])
p('C13', 'Equality, hashing, pickling and repr of value objects agree',
  'For every value type, equality compares the type and every defining parameter, equal objects hash equal, inequality is the negation of '
  'equality, and a pickled or repr-evaluated object equals the original with the same behaviour. Comparing objects of different sizes or '
  'kinds is False, never an error or an out-of-bounds read.', ['inputs', 'histories'],
  'all value types and parameter combinations', 'tests compare hand-picked unequal pairs; a parameter omitted from one of the four '
  'methods shows only for a pair differing in it', ['batoid', 'src/rayVector.cpp', 'include/dualView.h'],
  [('__eq__/__hash__/__getstate__/__setstate__/__repr__', 'batoid/*.py')])
p('C14', 'Ray container operations carry every per-ray field and the frame',
  'Copying, indexing, slicing, masking and concatenating ray bundles select or join all per-ray quantities (position, velocity, time, '
  'wavelength, flux, vignetted, failed) consistently and keep the coordinate system; integer, negative, slice, mask and index-array '
  'selections mean what they mean for an array. Results are independent of the originals.', ['inputs', 'histories'],
  'all bundle sizes, index kinds and coordinate systems', 'tests use a few index kinds on one bundle',
  ['batoid/rayVector.py'], [('__getitem__, copy, concatenateRayVectors', 'batoid/rayVector.py')], ['RayVector'])
p('C15', 'Derived optics change only what was asked and never the original',
  'Every operation deriving a shifted, rotated, re-surfaced, inserted or removed optic returns a new optic in which only the requested '
  'part changed: all other attributes (obscurations, media, coatings, screens, skip flags, pupil settings, stop surface, names, order) are '
  'preserved, and the original is untouched. Rigid motions move a compound and all it contains, stop surface included, as one body.',
  ['inputs', 'histories'], 'all optic trees, element types, depths and derivation sequences',
  'tests derive from a few telescopes and look at the moved element; lost attributes elsewhere go unnoticed',
  ['batoid/optic.py'], [('re-initialisation from a copied attribute dictionary', 'batoid/optic.py with*')],
  ['Optic.withGlobalShift', 'Optic.withLocalRotation', 'CompoundOptic.withSurface'])
p('C16', 'Names resolve to exactly the named element, or raise',
  'Looking up, shifting, rotating, replacing, inserting or removing an element by its bare or dotted full name affects exactly that element '
  'at whatever depth it lies. Unknown names are errors, and an element whose name is a prefix of another\'s is never confused with it.',
  ['inputs'], 'all trees of named elements and all names', 'test telescopes have well separated names at shallow depth',
  ['batoid/optic.py'], [('itemDict and _names', 'batoid/optic.py')])
p('C17', 'All tracing entry points agree and respect element order and skipping',
  'Plain, full and split tracing visit the elements of a (nested) optic in order, or in reverse order with media and coatings swapped when '
  'tracing backwards, apply each element\'s interaction in its own frame and then its obscuration once, and honour skipped elements. '
  'Full tracing reports for each element the same rays plain tracing produces; tracing a copy leaves the input unchanged.',
  ['inputs', 'histories', 'configurations'], 'all optic trees, element types, directions and skip patterns',
  'tests compare entry points on full telescopes in the forward direction only', ['batoid/optic.py'],
  [('trace/traceFull/traceSplit/interact', 'batoid/optic.py')], ['Optic.trace', 'Optic.traceFull', 'Optic.traceSplit'])
p('C18', 'Thread and iteration settings take effect at the next call',
  'Setting the thread count or the intersection iteration limit affects every later native call that takes such a limit, whichever module '
  'makes it, and the limits are passed in their proper places.', ['configurations', 'histories'],
  'all call sites and all orders of setting and calling', 'results do not depend on the thread count, so a stale or ignored setting is invisible to tests',
  ['batoid/global_vars.py', 'batoid/trace.py', 'batoid/rayVector.py', 'batoid/__init__.py'], [('settings read at call time', 'batoid/trace.py')])
p('C19', 'Field-angle projections are consistent inverses and dispatch by name',
  'Each named projection maps field angles to a unit direction and back as exact inverses on its domain, and every entry point accepting a '
  'projection name uses that projection; unknown names raise.', ['inputs'],
  'all projections and angles in their domain', 'tests check round trips at small angles for some of the projections',
  ['batoid/utils.py'], [('xToDirCos/dirCosToX pairs', 'batoid/utils.py')], ['fieldToDirCos', 'dirCosToField'])
p('C20', 'Configurations parse into exactly the optics they describe',
  'Every documented configuration key is honoured for every element type: coordinate systems compose parent to child, media are inherited '
  'where not given, and surface, obscuration, medium and pupil parameters reach the object built. Unknown types raise, and the '
  'configuration passed in is not modified.', ['inputs'], 'all configurations', 'tests parse the shipped telescopes, which use a subset of keys per type',
  ['batoid/parse.py'], [('parse_optic and friends', 'batoid/parse.py')], ['parse_optic'])
p('C21', 'Ray factories honour explicit arguments and fall back to the optic',
  'In every ray-bundle factory an explicitly given argument is always used as given, an omitted one comes from the optic if there is one '
  'and otherwise from the documented default, and missing mandatory information raises. All rays start on the requested plane or '
  'sphere, in the requested frame, with speed 1/n of the medium, common time reference, and the requested wavelength and flux.',
  ['inputs'], 'all combinations of arguments present or absent', 'there are hundreds of presence combinations per factory; tests use a few',
  ['batoid/rayVector.py'], [('argument resolution in asGrid/asPolar/asSpokes/asFan/fromStop', 'batoid/rayVector.py')])
p('C22', 'Each Python-level parameter reaches the native parameter it names',
  'Surface, medium, coating, obscuration and tracing arguments given in Python arrive at the native implementation in the role their name '
  'says, with no swap, omission or unit change between the layers.', ['inputs'], 'all constructors and operations with distinguishable arguments',
  'tests often use equal or symmetric values for exchangeable parameters', ['pysrc', 'batoid', 'include'],
  [('pybind11 signatures and positional calls', 'pysrc/*.cpp, batoid/*.py')])
p('C23', 'Analyses use the user\'s settings and only unvignetted rays',
  'Every analysis and image-quality function uses each of its parameters (field angle, wavelength, projection, sampling, reference) in the '
  'ray bundle and computation it performs, and its statistics and fits exclude vignetted and failed rays.', ['inputs'],
  'all parameter combinations', 'tests use default or symmetric parameters; a dropped one gives a plausible number',
  ['batoid/analysis.py'], [('parameter forwarding and vignetting masks', 'batoid/analysis.py')])
p('C24', 'Host and device copies of ray data never diverge unnoticed',
  'Before native code reads a ray quantity the copy it uses is up to date, every quantity it may change is marked as changed there, and user '
  'access always sees the current values. Device-side clones of surfaces, media, coatings and obscurations are built from all of the '
  'original\'s parameters.', ['configurations', 'histories'], 'all sequences of operations and user accesses in a GPU build',
  'the tests run a CPU build, in which host and device are the same memory',
  ['src', 'include/dualView.h', 'batoid/rayVector.py'], [('syncToDevice/syncToHost', 'src/*.cpp')])
p('C25', 'Ray phase, amplitude and propagation follow the plane-wave formulas',
  'Position at a time, propagation in place, phase, amplitude and summed amplitude of rays are the documented functions of each ray\'s '
  'position, velocity, time, wavelength and flux. Failed rays contribute nothing to a sum, vignetted ones nothing unless asked for.',
  ['inputs'], 'all ray states, times and positions', 'tests compare typical bundles; flux weights other than one and flag combinations are not sampled',
  ['src/rayVector.cpp', 'batoid/rayVector.py'], [('RayVector member functions', 'src/rayVector.cpp')],
  ['RayVector.phase', 'RayVector.amplitude', 'RayVector.sumAmplitude', 'RayVector.positionAtTime'])
p('C26', 'Coordinate systems and transforms form a rigid-motion algebra',
  'Shifting and rotating a coordinate system globally or locally, about any centre, gives the documented rigid motion; a transform between '
  'two systems maps the coordinates of a fixed point in one to those in the other. Forward and reverse application are inverses '
  'for points, arrays and ray bundles alike.', ['inputs', 'histories'], 'all systems, rotations, centres and compositions',
  'tests check commuting examples and round trips at random values', ['batoid/coordSys.py', 'batoid/coordTransform.py'],
  [('origin/rot algebra', 'batoid/coordSys.py')], ['CoordSys', 'CoordTransform'])
p('C27', 'Bicubic grids interpolate their nodes and derivatives consistently',
  'A gridded surface reproduces the supplied value at every node of its half-open domain (the last row and column count as outside), is evaluated '
  'with the cell that contains the point in both axes, and its gradient is the exact derivative of the interpolated height. '
  'Derivatives that are not supplied are those of the supplied heights. Outside the grid it is not-a-number or zero as requested.',
  ['inputs'], 'all grids (non-square, offset origins, unequal spacing) and points incl. cell boundaries',
  'tests use few grids and compare smooth functions with tolerance', ['src/table.cpp', 'src/bicubic.cpp', 'batoid/surface.py'],
  [('table eval/grad', 'src/table.cpp')], ['Bicubic.sag', 'Bicubic.normal'])
p('C28', 'Lattice coordinates and reciprocal lattices are exact for every basis',
  'A lattice\'s coordinates are the integer combinations of its primitive vectors centred on index zero, for even and odd sizes and '
  'non-orthogonal vectors, and the Fourier-dual lattice returned with a transform satisfies the duality relation with it.',
  ['inputs'], 'all dimensions, sizes and primitive vectors', 'tests use square orthogonal lattices', ['batoid/lattice.py', 'batoid/analysis.py'],
  [('Lattice.coords, reciprocal vectors', 'batoid/lattice.py, batoid/analysis.py')], ['Lattice.coords'])
p('C29', 'Traced image quality converges to reference values',
  'Intersection iterations converge for every well-posed ray, and computed wavefronts, Zernike coefficients and PSFs agree with reference '
  'optical software to the stated accuracy.', ['inputs'], 'all telescopes, fields and wavelengths',
  'only a handful of reference configurations exist', ['batoid/analysis.py', 'src/surface.cpp', 'src/asphere.cpp'],
  [('numerical algorithms', 'batoid/analysis.py')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as fh:
        for x in P:
            fh.write(json.dumps(x) + '\n')
