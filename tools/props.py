"""Writes properties.jsonl and MANIFEST.json from one table (python3 tools/props.py)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "checks"))
import registry  # noqa: E402

S = "src/ska-sdp-func/"
P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), na=None):
    assert len(title) <= 80, (pid, len(title))
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [S + f if not f.startswith("src") else f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})
    if na:
        NA.append({"property": pid, "reason": na})


STATUS = ("error status", "zero while every step so far has succeeded", "utility/sdp_errors.h")
MEM = ("array handle", "element type, location, shape, strides, read-only mark and data pointer",
       "utility/sdp_mem.cpp")

prop("S01", "A call handed a failed status does nothing",
     "A library call whose error status already signals a failure on entry returns with that "
     "status value unchanged and without having modified any array, plan or variable of the "
     "caller.",
     ["inputs", "fault_sequences"],
     "every public function that takes an error status, every combination of the other arguments",
     "Tests call functions with a clean status; the chains of calls that an application makes "
     "after a failure are only ever exercised when something goes wrong.",
     ["utility/sdp_mem.cpp", "utility/sdp_errors.h", "grid_data", "visibility", "clean",
      "fourier_transforms", "station_beam"],
     [("early return on a failed status", "first statement of each public function"),
      ("argument checks that keep an earlier error", "utility/sdp_mem.cpp, sdp_mem_check_*")],
     [STATUS], ["caller's arrays", "error status"])
prop("S02", "No array element is touched after an error has been recorded",
     "Once a call has recorded an error, whether from its own argument checks or from a step "
     "that it called, it does not go on to read or write elements of any array.",
     ["inputs", "fault_sequences"],
     "every public function, every argument combination, every failing allocation or sub-step",
     "Tests pass valid arguments and never make an allocation or a sub-step fail.",
     ["utility/sdp_mem.cpp", "grid_data", "visibility", "clean", "fourier_transforms",
      "numeric_functions", "station_beam"],
     [("return or skip when the status is set", "between the checks and the processing loops")],
     [STATUS, MEM], ["array data"])
prop("S03", "Array elements are only accessed as the element type the array has",
     "Every call reads and writes the elements of an array as the element type that the array "
     "was created with. A combination of element types for which there is no code is rejected "
     "with an error before any element is touched.",
     ["inputs", "configurations"],
     "every public function and every combination of element types of its array arguments",
     "There are seven element types and up to ten arrays per call; tests use the one or two "
     "combinations that are documented to work.",
     ["utility/sdp_mem.cpp", "grid_data", "visibility", "clean", "fourier_transforms",
      "numeric_functions", "station_beam"],
     [("type checks and dispatch on types", "in each public function, before its loops")],
     [MEM], ["array data"])
prop("S04", "Host code only dereferences arrays that are in host memory",
     "No call dereferences the data of an array on the host unless that array is in host "
     "memory. An array in device memory is handed to device code, copied to the host first, or "
     "rejected with an error.",
     ["inputs", "configurations"],
     "every public function and every combination of locations of its array arguments",
     "The test machines have no device, so the tests never mix locations.",
     ["utility/sdp_mem.cpp", "grid_data", "visibility", "clean", "fourier_transforms",
      "numeric_functions", "station_beam"],
     [("location checks and dispatch on location", "in each public function, before its loops")],
     [MEM], ["array data"])
prop("S05", "Read-only arrays and input arguments are never modified",
     "No call modifies an array that is marked as read-only, or one that it takes as an input "
     "only. Using a read-only array as an output is reported as an error.",
     ["inputs"],
     "every public function and every array argument, read-only or not",
     "Tests pass writeable outputs; few pass a read-only array where an output is expected.",
     ["utility/sdp_mem.cpp", "grid_data", "visibility", "clean", "fourier_transforms",
      "numeric_functions", "station_beam"],
     [("writeability checks", "utility/sdp_mem.cpp, sdp_mem_check_writeable"),
      ("const qualified inputs", "signatures in the public headers")],
     [MEM], ["array data"])
prop("S06", "Success is only reported by calls that did their work",
     "A call that reports success has gone through the code that produces each of its outputs, "
     "unless it was given nothing to do. A combination of element types, locations or options "
     "for which nothing is implemented is reported as an error and never silently ignored.",
     ["inputs", "configurations"],
     "every public function with an output and every accepted combination of its arguments",
     "Tests only use combinations that are implemented, so a combination that falls through "
     "every branch goes unnoticed.",
     ["grid_data", "visibility", "clean", "fourier_transforms", "numeric_functions",
      "station_beam", "utility/sdp_mem.cpp"],
     [("final else branches that set an error", "dispatch chains of each public function")],
     [STATUS], ["output arrays", "error status"])
prop("S07", "A recorded error always reaches the caller",
     "When any step of a call fails, the call itself returns with a failed status: no step "
     "clears a recorded error, discards the error of a step that it called, or gives a step an "
     "error status that nobody reads.",
     ["inputs", "fault_sequences"],
     "every public function, every step it calls and every failure of that step",
     "Failures of inner steps (allocation, device, unsupported input) do not occur in the tests.",
     ["utility/sdp_mem.cpp", "grid_data", "visibility", "clean", "fourier_transforms",
      "numeric_functions", "station_beam"],
     [("one error status passed to every step", "all public functions")],
     [STATUS], ["error status"])
prop("S08", "Every object made during a call is released exactly once or handed over",
     "Whatever path a call takes, including every error path, each array, plan, transform, "
     "lock and block of memory that it creates is released exactly once before it returns, or "
     "is returned to the caller or stored in an object that outlives the call. Nothing is used "
     "after its release.",
     ["inputs", "fault_sequences"],
     "every public function, every path to every return, every object created on the way",
     "A leak on an error path has no effect that a test observes, and error paths are rarely "
     "taken.",
     ["utility/sdp_mem.cpp", "grid_data", "clean", "fourier_transforms", "numeric_functions"],
     [("release at the end of each function", "creation and free calls in each public function"),
      ("reference counts", "utility/sdp_mem.cpp, sdp_mem_ref_inc, sdp_mem_ref_dec")],
     [MEM], ["process memory"])

prop("S09", "A plan owns what it keeps until it is released, once",
     "Whatever a plan object keeps (arrays, transforms, work areas, copies made on demand) is "
     "released by the plan's own release function, on every path of it. A kept object is never "
     "replaced before it was released, never left behind after it was released, and an object "
     "that belongs to the caller is never released with the plan.",
     ["histories"],
     "every sequence of calls on a plan between its creation and its release",
     "A lost or doubly released field has no effect that a test observes, and the device copies "
     "are only made on machines with a device.",
     ["fourier_transforms/sdp_fft.cpp", "fourier_transforms/sdp_pswf.cpp",
      "fourier_transforms/sdp_swiftly.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp",
      "grid_data/sdp_gridder_uvw_es_fft.cpp", "grid_data/sdp_gridder_direct.cpp",
      "utility/sdp_sky_coord.c"],
     [("release functions", "sdp_*_free and sdp_*_free_plan"),
      ("on-demand copies kept in the plan", "grid_data/sdp_gridder_wtower_uvw.cpp")],
     [("plan fields", "objects owned by a plan", "struct definitions in the source files")],
     ["process memory"])
prop("A01", "Strided arrays are indexed with their strides or rejected",
     "A call that goes through an array as if its elements were adjacent in memory rejects an "
     "array that is not contiguous with an error before touching it; otherwise it uses the "
     "strides of the array. No result depends on memory between or beyond the elements of an "
     "array with gaps.",
     ["inputs"],
     "every public function and every stride pattern of its array arguments",
     "Tests pass freshly made arrays, which are always contiguous; slices and transposed views "
     "are what applications pass.",
     ["utility/sdp_mem.cpp", "utility/sdp_mem_view.h", "grid_data", "visibility", "clean",
      "fourier_transforms", "numeric_functions", "station_beam"],
     [("contiguity checks", "utility/sdp_mem.cpp, sdp_mem_check_c_contiguity"),
      ("strided views", "utility/sdp_mem_view.h")],
     [MEM], ["array data"])

prop("A02", "Sizes that do not fit together are rejected, and no index leaves its array",
     "A call whose arguments have sizes, counts, offsets or row and channel ranges that do not fit "
     "together sets an error instead of reading or writing outside an array. Every index made of "
     "loop counters, sizes of arrays, integer arguments and constants is inside the dimension that "
     "it indexes, or inside the number of elements of an array used as a block, for every "
     "combination of arguments that the call accepts; arrays made inside a call are large enough "
     "for what is put into them, and so are its local arrays and the memory it requests; an index made from a coordinate is compared with both ends of "
     "the array before it is used.",
     ["inputs"],
     "every public function and every combination of array shapes and integer arguments",
     "Tests pass arrays of matching sizes; one missing comparison lets a caller's slip read or "
     "overwrite memory of the process, often without a visible failure.",
     ["utility/sdp_mem.cpp", "utility/sdp_data_model_checks.cpp", "grid_data", "visibility",
      "clean", "fourier_transforms", "numeric_functions", "station_beam", "math"],
     [("shape checks", "utility/sdp_mem.cpp, sdp_mem_check_shape, sdp_mem_check_dim_size"),
      ("sizes of visibility data", "utility/sdp_data_model_checks.cpp")],
     [MEM], ["array data", "sizes"])

prop("B01", "Python calls reach the C functions as these are declared",
     "Every call that the Python package makes into the library names an existing function and "
     "passes it as many arguments as it takes, each of the kind and width that it expects, each "
     "Python parameter in the place of the C parameter it stands for. An array is described with "
     "its own element type, shape, strides, location and read-only mark, or refused; a non-zero "
     "error code always becomes an exception and success never does; each handle is released "
     "once, with the release function of its own kind.",
     ["inputs", "configurations"],
     "every function that the package wraps, every call site, element type and error code",
     "A wrong width only shows for large values, exchanged arguments only when they differ, a "
     "missing error check only when an error occurs, and the device branch only on a device.",
     ["src/ska_sdp_func/utility/lib.py", "src/ska_sdp_func/utility/mem.py",
      "src/ska_sdp_func/utility/error_checking.py", "src/ska_sdp_func/utility/struct_wrapper.py",
      "src/ska_sdp_func/grid_data", "src/ska_sdp_func/visibility",
      "src/ska_sdp_func/fourier_transforms", "src/ska_sdp_func/station_beam",
      "src/ska_sdp_func/clean"],
     [("declared argument types", "Lib.wrap_func calls at the end of each module"),
      ("error decorator", "src/ska_sdp_func/utility/error_checking.py"),
      ("array descriptions", "src/ska_sdp_func/utility/mem.py, Mem.__init__")],
     [MEM, STATUS], ["arguments received by the C function", "exceptions"])

prop("M01", "An array handle reports what it was made with",
     "A handle to an array reports the element type, location, number of dimensions and read-only "
     "mark with which it was made, until these are changed through it; a view or an alias takes "
     "them from its array, and a copy takes all but the location. Queries change nothing, answer "
     "the same way for every element type of a kind, and return zero for dimensions that do not "
     "exist. An array counts as contiguous exactly if every stride is the size of an element "
     "times the sizes of the dimensions inside it. The checking functions accept an array exactly if it has the attribute asked for. "
     "Only memory that the library allocated is released with a handle, and only with the last "
     "reference to it.",
     ["inputs", "histories"],
     "every query, check, constructor and release of an array handle; every element type, "
     "location, reference count and ownership",
     "Every other guarantee is expressed in these attributes; a slip for one type, for a missing "
     "handle, or for the last reference to a borrowed block is invisible in ordinary use.",
     ["utility/sdp_mem.cpp", "utility/sdp_mem.h"],
     [("attribute queries", "utility/sdp_mem.cpp, sdp_mem_type to sdp_mem_num_elements"),
      ("reference count and ownership", "utility/sdp_mem.cpp, sdp_mem_free"),
      ("attribute checks", "utility/sdp_mem.cpp, sdp_mem_check_*_at")],
     [MEM, STATUS], ["values returned", "blocks released"])

prop("C01", "Threads of a parallel loop never meet at memory that one of them writes",
     "In every parallel loop and region, whatever the number of threads and the order in which "
     "they run, no thread writes to memory that another thread may read or write at the same "
     "time, except under a lock, by an atomic update or by a reduction. Every lock that is taken "
     "is given back on every path. (The error status, which threads only ever set to a failure, "
     "and the message log are not part of the data meant here.)",
     ["schedules", "inputs"],
     "every parallel region, every number of threads and every interleaving",
     "A race shows only in rare interleavings, on machines with many cores, and for inputs with "
     "enough work for several threads; the tests run small cases once.",
     ["grid_data", "visibility", "station_beam", "fourier_transforms/sdp_fft.cpp",
      "utility/sdp_mem.cpp"],
     [("parallel loops", "#pragma omp parallel in the processing functions"),
      ("task list and its lock", "grid_data/sdp_grid_wstack_wtower.cpp, pick_task"),
      ("reductions, atomic updates and critical sections",
       "grid_data/sdp_gridder_utils.cpp, grid_data/sdp_grid_wstack_wtower.cpp")],
     [MEM], ["array data", "sums and counts"])
prop("G01", "Calls depend on their arguments only and leave no traces elsewhere",
     "What a call computes depends on its arguments and the objects these refer to, not on "
     "earlier calls, the time, the environment or random numbers, and it changes nothing else: "
     "no variable that outlives the call, no setting of the process (environment, locale, "
     "floating-point mode, parallel settings), no files or standard streams, and it never ends "
     "the process. The message log and the documented random fill are the only exceptions.",
     ["histories", "configurations"],
     "every function, after every history of earlier calls, in every state of the process",
     "Tests make one call in a fresh process and look at its outputs; state that is kept shows "
     "in a later call with other arguments, and changed settings show in the application.",
     ["grid_data", "visibility", "clean", "fourier_transforms", "numeric_functions",
      "station_beam", "utility"],
     [("plans and handles hold all state", "struct definitions in the source files"),
      ("log threshold", "utility/sdp_logging.c"),
      ("nesting level of parallel regions", "grid_data/sdp_grid_wstack_wtower.cpp")],
     [("global variables", "log threshold, table of device kernels", "utility")],
     ["results", "process settings", "standard streams"])

NUM = ("The statement quantifies over floating-point results; no sound static argument in reach "
       "bounds them, and the structural clauses (types, bounds, errors, lifetime) are claimed "
       "separately.")
prop("N01", "Fourier transforms equal the transform they are named after",
     "The forward and inverse transforms agree with the discrete Fourier transform of their "
     "input to floating-point accuracy, for every supported size, rank, batch and precision.",
     ["inputs"], "all arrays of all supported shapes", "Tests sample a few sizes.",
     ["fourier_transforms/sdp_fft.cpp"], [("transform execution", "fourier_transforms/sdp_fft.cpp")],
     na=NUM)
prop("N02", "Degridding and gridding agree with the direct transform",
     "Predicted visibilities and gridded images agree with the direct Fourier sum within the "
     "error that the kernel's parameters promise.",
     ["inputs"], "all uvw distributions, frequencies and images",
     "Tests use one or two small layouts.",
     ["grid_data/sdp_gridder_wtower_uvw.cpp", "grid_data/sdp_gridder_uvw_es_fft.cpp"],
     [("gridding loops", "grid_data")], na=NUM)
prop("N03", "Deconvolution converges to the sky model that made the dirty image",
     "The deconvolution loop reduces the residual monotonically down to the threshold for a "
     "well-behaved point spread function.",
     ["inputs"], "all dirty images and point spread functions", "One synthetic image is tested.",
     ["clean/sdp_hogbom_clean.cpp", "clean/sdp_ms_clean_cornwell.cpp"],
     [("iteration loop", "clean")], na=NUM)
prop("N04", "Facet to sub-grid transforms round-trip",
     "Splitting an image into sub-grids and reassembling the facets reproduces the image to the "
     "accuracy of the window function.",
     ["inputs"], "all images and all valid size parameters", "Tests use a few sizes.",
     ["fourier_transforms/sdp_swiftly.cpp"], [("sub-grid steps", "fourier_transforms/sdp_swiftly.cpp")],
     na=NUM)
prop("N05", "Results do not depend on the number of threads",
     "Running the same call with a different number of threads gives bitwise the same output.",
     ["schedules"], "all thread counts and schedules",
     "Tests run with one thread count.",
     ["grid_data", "visibility"], [("parallel loops", "pragma omp in the processing functions")],
     na="Floating-point reductions and atomic additions are reassociated by the schedule, so the "
        "bitwise statement is not promised by the code; the part that is (no data race) is a "
        "separate property.")
prop("N06", "Interference flags follow the documented thresholds",
     "A sample is flagged exactly when it exceeds the threshold derived from the statistics of "
     "its neighbourhood.",
     ["inputs"], "all visibility sets", "Three small synthetic cases are tested.",
     ["visibility/sdp_flagger.cpp"], [("threshold comparisons", "visibility/sdp_flagger.cpp")],
     na=NUM)

if __name__ == "__main__":
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, sort_keys=True) + "\n")
    ids = {p["id"] for p in P}
    claimed = [i for i in sorted(registry.CHECKS)]
    assert set(claimed) <= ids, set(claimed) - ids
    na = {n["property"] for n in NA}
    assert not na & set(claimed), na & set(claimed)
    assert ids == na | set(claimed), ids ^ (na | set(claimed))
    man = {"version": 1, "setup_cmd": "python3 engine/build_ir.py seq",
           "checks": [{"property": i,
                       "quick_cmd": "python3 checks/run.py %s quick" % i,
                       "thorough_cmd": "python3 checks/run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": registry.CHECKS[i]["technique"],
                       "level": registry.CHECKS[i]["level"],
                       "level_note": registry.CHECKS[i].get("level_note") or
                       registry.CHECKS[i]["note"]} for i in claimed],
           "not_applicable": NA,
           "notes": "Static analysis only: nothing in /repo is executed by any check."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(claimed), "claimed")
