"""Texts for MANIFEST.json."""
GVN = 'gated value-numbering dataflow over the clang AST, compared with a formula'
KN = ('Decides, on every path of the current source, that the value each function computes equals (as a normal form over an algebraic domain) '
      'the one the property demands. Trusts the clang AST and real-number semantics; rounding, overflow and NaN are outside the domain. '
      'A construct the domain cannot track is reported as undecided in the evidence, never as a violation.')
TECH = {}
NOTE = {}
for _i in ('C01', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C25', 'C27'):
    TECH[_i] = GVN
    NOTE[_i] = KN
TECH['C02'] = 'effect and dependence analysis of OpenMP loops over the clang AST'
NOTE['C02'] = ('Decides that no iteration of a parallel loop touches another iteration\'s elements, shared scalars or static state, and that loops cover '
               'each ray once. Trusts the clang AST and that distinct buffers do not alias.')
PYG = 'abstract interpretation (gated value numbering, symbolic heap) of the Python sources, compared with a formula'
PYN = ('Interprets the current Python source of the operations on symbolic objects (no execution) and compares every resulting attribute, frame and '
       'native-call argument with what the property demands, as normal forms. Trusts the meaning given to numpy and builtins and real-number semantics; '
       'what the domain cannot track is reported as undecided in the evidence, never as a violation.')
for _i in ('C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C26', 'C28'):
    TECH[_i] = PYG
    NOTE[_i] = PYN
TECH['C11'] = 'array provenance (element type, layout, extent, ownership) dataflow over the Python sources and clang AST of the bindings'
NOTE['C11'] = ('Follows every array whose address reaches native code from its creation, and decides type, contiguity, extent against what the C++ side indexes, '
               'that the buffer stays referenced by the object and is not the caller\'s. Trusts the meaning given to numpy calls; what it cannot track is reported '
               'as undecided in the evidence, never as a violation.')
TECH['C12'] = 'ownership (alias) and effect analysis: abstract interpretation of the Python sources with caller-owned arrays, containers and bundles tracked'
NOTE['C12'] = ('Follows every array, container and bundle of the caller through constructors, factories, parsing, queries, derivations and analyses; decides that no store, '
               'in-place operator or native write reaches it and that no result keeps it. Trusts the meaning given to numpy calls (views, copies); what it cannot '
               'track is reported as undecided in the evidence, never as a violation.')
TECH['C24'] = ('typestate analysis of host/device copies over the clang AST of the BATOID_GPU configuration, plus abstract interpretation of the Python accessors')
NOTE['C24'] = ('Tracks, on every path of every public native operation, which copy (host or device) of each ray quantity is current, and decides that the copy an '
               'operation or kernel uses is current, that changes are recorded on the right side, that kernels touch mapped device storage only, and that clones '
               'carry every parameter. Trusts the clang AST and that DualView moves data as its own (also analysed) methods say; statements it cannot track make the '
               'function undecided in the evidence, never a violation.')
NA = {
    'C29': 'quantifies over floating-point convergence and agreement with external reference software; no static argument in reach bounds it',
}
