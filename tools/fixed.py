"""Prints the 'fixed:' lines of known_findings.txt from /repo's fix commits."""
import re
import subprocess

# first words of the commit subject -> properties whose check reported it
WHY = [
    (r"count the pixels|shift sub-grids that are not|reject arrays of different sizes", "A02"),
    (r"taper or coordinates|w-pattern that does not|channel ranges that do not", "A02"),
    (r"rows outside|both dimensions of the images|flags that do not have the shape", "A02"),
    (r"frequencies that do not match|arrays too small|channel arrays and rows", "A02"),
    (r"fft_convolution: (reject outputs|handle sizes)|sizes that are not positive", "A02"),
    (r"w-kernel offsets|median of one value|sampling step and history|kernel for large images", "A02"),
    (r"more planes than the grid|from before the start|fields of view that|facet offsets before|rows of 2D contrib|facets that are not", "A02"),
    (r"contiguous", "A01"), (r"create_copy: (reject|look)", "A01"),
    (r"sdp_count_and_prefix_sum: val", "S02"), (r"sdp_bucket_sort, sdp_til", "S03"),
    (r"sdp_mem: keep an earlier", "S07"), (r"sdp_mem: aliases", "S05"),
    (r"sdp_mem: do not modify", "S05"), (r"sdp_mem_random_fill", "S06"),
    (r"sdp_mem_convert_precision", "S02"), (r"sdp_mem_check_same_shape", "S07"),
    (r"sdp_mem_create_wrapper_for_slice", "A02"), (r"sdp_fft_convolution", "S02"),
    (r"make_pswf_kernel", "S03"), (r"sdp_pswf: do not", "S02"),
    (r"sdp_pswf_create", "S07"), (r"wtower_uvw_create: keep", "S07"),
    (r"swiftly_create: release", "S08"), (r"swiftly_free", "S09"), (r"sdp_swiftly: release", "S08"),
    (r"finish_subgrid_inplace_2d", "A02"), (r"uvw_es_fft: do not use or leak", "S08"),
    (r"element_beam", "S03"), (r"station_beam", "S03"), (r"sdp_weighting: check", "S03"),
    (r"sdp_weighting: skip", "A02"), (r"wstack_wtower: report a mis", "G01"),
    (r"function_example_a_exec", "A02"),
    (r"put back the caller.s OpenMP", "G01"), (r"log the tile statistics", "G01"),
]
log = subprocess.check_output(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for line in log.splitlines():
    h, _, s = line.partition(" ")
    if s.startswith("fix: "):
        p = next((p for r, p in WHY if re.search(r, s)), "S02")
        print("fixed: property=%s %s %s" % (p, h, s[5:]))
