"""Prints 'fixed:' lines for known_findings.txt from /repo's fix: commits."""
import subprocess
M = [("kbnsum", "P23"), ("bincount ignores", "P04"), ("bincount accumulates", "P35"), ("bincount computes", "P35"), ("convert_to_base raises", "P04"),
     ("unwrap does", "P31"), ("unwrap gives", "P31"), ("tri_area", "P34"), ("vnorm", "P27"), ("linear_interp1d", "P04"),
     ("percentileofscore", "P22"), ("mad, rmad", "P26"), ("one_hot", "P36"), ("hypot3", "P11"), ("hyperbolic_ramp", "P13"),
     ("swish", "P13"), ("ordered compares", "P21"), ("ordered with", "P04"), ("object loops", "P05"), ("ordered is", "P21"), ("searchsorted", "P20"),
     ("pmean and pmeanw keep", "P24"), ("pmean and pmeanw give", "P24"), ("pmean and pmeanw of", "P24"),
     ("gmean and gmeanw", "P24"), ("sosfilter: raise MemoryError", "P40"), ("sosfilter", "P30"), ("use npy_intp", "P40"), ("mad does not overflow", "P40"),
     ("gendot stores", "P37"), ("gendot converts", "P37"), ("convert_to_base accepts", "P36"), ("docstrings of", "P44"), ("wrappers of", "P44"), ("to_lines", "P44"), ("erfcx, normal", "P38"), ("gufunc generator", "P45"), ("conv_template", "P45")]
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        p = [b for a, b in M if s.startswith(a)]
        print(f"fixed: property={p[0] if p else '???'} {h} {s}")
print("finding: property=P03 probe=backlash_sum-final-alias backlash_sum(x, w, deadband, initial, out=(y, final)) with `final` being the array `w` or "
      "`deadband` overwrites them while it still reads them (numpy does not copy exactly overlapping operands of a gufunc), e.g. "
      "backlash_sum([1., 2.], w, [1., .5], [0., 0.], out=(None, w)) with w = [.5, 2.]")
