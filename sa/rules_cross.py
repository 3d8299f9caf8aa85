"""Rules that decide a part of more than one property.

A property's guarantee often rests on several layers (kernel, wrapper, optic, constructor).  Where the statement of a
property needs a fact that another property's rule decides, that rule (or the part of it about the quantities in
question) is run under this property too, so that a violation is reported for every property it breaks."""
import re
from . import core
from .core import RULES, Sink


def also(prop, src, rids, only=None, drop=None):
    have = {r[0]: r for r in RULES[src]}
    for rid in rids:
        _, f, need, tier = have[rid]

        def g(ctx, s, f=f, rid=rid):
            t = Sink(s.rid)
            try:
                f(ctx, t)
            finally:
                for o in t.obs:
                    if only is not None and o.subject[:1] != '<' and not re.search(only, o.subject):
                        continue
                    if drop is not None and re.search(drop, o.subject):
                        continue
                    s.obs.append(o)
        RULES[prop].append(('%s.%s' % (src, rid), g, 1, tier))


FAILV = r'[./ ](failed|vignetted)\b'
# C01 misses are decided by the surfaces; the flags travel with the rays through every container operation
also('C01', 'C08', ['analytic-hit-condition', 'newton-residual'])
also('C01', 'C14', ['construct', 'copy', 'index', 'concatenate'], only=FAILV)
# C03 the region itself; its frame; one application per visited element
also('C03', 'C09', ['shape', 'boolean-algebra', 'polygon'])
also('C03', 'C04', ['wrapper-frames'], only=r'obscure')
also('C03', 'C17', ['interface-trace'], only=r'obsc$')
also('C03', 'C14', ['construct', 'copy', 'index', 'concatenate'], only=r'[./ ]vignetted\b')
also('C03', 'C22', ['trace-arguments'], only=r'obscure')
# C04 the transform algebra, the label through container operations and factories, the frames of the elements
also('C04', 'C26', ['transform'])
also('C04', 'C14', ['construct', 'copy', 'index', 'concatenate'], only=r'coordSys|two frames')
also('C04', 'C17', ['interface-trace', 'interface-split'], only=r'(dr|drot|coordSys|origin|rot)$')
also('C04', 'C21', ['frames'])
# C05 the normals and the media the laws are applied with
also('C05', 'C07', ['normal-is-gradient', 'polynomial-gradient', 'sum-gradient', 'grad-from-normal', 'bicubic-normal'])
also('C05', 'C17', ['interface-trace'], only=r'(surface|rv|m\d|screen|[mM]edium)$')
also('C05', 'C22', ['trace-arguments'], only=r'(reflect|refract|intersect|rSplit)')
# C06
also('C06', 'C17', ['interface-trace', 'interface-split'], only=r'coating')
also('C06', 'C22', ['trace-arguments', 'constructors', 'constructor-forms', 'queries'], only=r'[cC]oat')
# C07
SURF = r'^(Plane|Paraboloid|Sphere|Quadric|Asphere|Tilted|Zernike|Bicubic|Sum)\b'
also('C07', 'C22', ['constructors', 'constructor-forms'], only=SURF)
also('C07', 'C22', ['queries'], only=r'sag')
also('C07', 'C22', ['normals'])
# C09, C10
also('C09', 'C22', ['constructors', 'constructor-forms'], only=r'^Obsc')
also('C09', 'C22', ['queries'], only=r'contains')
also('C09', 'C22', ['grid-containment'])
also('C10', 'C22', ['constructors', 'constructor-forms'], only=r'(Medium|^Air)')
also('C10', 'C22', ['queries'], only=r'getN')
# C19 every entry point with a projection
also('C19', 'C21', ['directions', 'field-angles'], only=r'(/u|/v|/projection|/vx|/vy|/vz)$')
also('C19', 'C23', ['dkdu', 'drdth', 'exit-pupil'])
# C25
also('C25', 'C22', ['ray-operations'])
# C26
also('C26', 'C04', ['transform-arrays'])
also('C26', 'C04', ['wrapper-frames'], only=r'Transform')
also('C26', 'C22', ['trace-arguments'], only=r'Transform')
# C27
also('C27', 'C07', ['bicubic-normal'])
also('C27', 'C22', ['constructors', 'constructor-forms'], only=r'Bicubic')
# C15 a motion of an optic is the motion of its frames
also('C15', 'C26', ['motions'])
