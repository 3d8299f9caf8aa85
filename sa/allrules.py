from . import rules_kernels, rules_surface, rules_media, rules_frames, rules_optic, rules_trace, rules_rays, rules_values, rules_utils, rules_native, rules_factory, rules_analysis, rules_parse, rules_arrays, rules_args, rules_device, rules_cross  # noqa: F401
