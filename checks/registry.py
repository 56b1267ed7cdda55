"""Property id -> how it is decided."""
import functools


def fam(rule, wanted, floors, note):
    def go(tier):
        import family
        return family.run(rule, wanted, floors, note)
    return {"run": go, "level": "other", "note": note,
            "technique": "path-sensitive abstract interpretation of LLVM IR (typestate over "
                         "error status and array attributes)"}


def mod(name, note, technique, level="other"):
    def go(tier):
        import importlib
        return importlib.import_module(name).run(tier)
    return {"run": go, "level": level, "note": note, "technique": technique}


CHECKS = {
    "S01": fam("a call made with an error status writes nothing and leaves the status alone",
               ["P01"], {"P01": 75}, "Every public function with a status argument is "
               "interpreted with a failed status on entry; any store to caller-visible memory "
               "or change of the status on any path is a violation."),
    "S02": fam("array data is only read or written while the status is success",
               ["R1"], {"R1": 210}, "Every load and store through an array's data pointer, on "
               "every path, with the abstract status at that point."),
    "S03": fam("every access uses the element type that the array is known to have",
               ["R2"], {"R2": 270}, "Every load and store through an array's data pointer, "
               "with the set of element types that the array may have on that path."),
    "S04": fam("host code only dereferences arrays known to be in host memory",
               ["R3"], {"R3": 175}, "Every load and store through an array's data pointer, "
               "with the set of locations that the array may have on that path."),
    "S05": fam("only arrays known to be writeable are written, and inputs never are",
               ["R4", "R5"], {"R4": 78}, "Every store through an array's data pointer: the "
               "array was found not to be read-only on that path, and is not an input-only "
               "parameter."),
    "S06": fam("success is only returned by paths that write every output",
               ["E1"], {"E1": 65}, "All exits of every public function that can return "
               "success, with the arrays written on the way."),
    "S07": fam("a reported error is never cleared, lost or ignored",
               ["E0", "E2", "E3", "E3d"], {"E0": 135, "E3": 160}, "Every store to an error "
               "status, every call that is given one, and the status at every exit."),
    "S08": fam("every object made is released exactly once on every path or handed over",
               ["RES"], {"RES": 160}, "Every creation site, with its ownership followed along "
               "every path to every exit."),
    "S09": fam("what a plan keeps, its release function gives back, and nothing else",
               ["S9"], {"S9": 20}, "Every object left in a field of a plan on return, every "
               "store to such a field, and every field that a release function gives back."),
    "A01": fam("arrays are only indexed as contiguous where they are known to be contiguous",
               ["A1"], {"A1": 90}, "Every load and store through an array's data pointer that "
               "does not use the array's own strides, every hand-over to device code or to a "
               "copy in memory order: the array was found to be contiguous on that path."),
    "A02": mod("bounds", "Every load and store through an array's data pointer: its offset as a "
               "polynomial over loop counters, sizes and scalar arguments, against the dimensions "
               "of the array under the comparisons that hold on that path.",
               "abstract interpretation of LLVM IR with symbolic index polynomials and interval "
               "reasoning over dominating conditions"),
    "B01": mod("bindings", "Every declaration of a C function in the Python package, every call "
               "of one and every wrapper class is compared with the prototypes and enumerators "
               "of the compiled library; the wrapping helpers are evaluated for every element "
               "type and error code.",
               "syntax-tree queries and constant propagation over the Python package, against "
               "the compiler's prototypes"),
    "M01": mod("handles", "Every query, check, constructor and release function of the array "
               "handle is interpreted for each element type, location, ownership and reference "
               "count; values returned, fields left, error status and blocks released are "
               "compared with the documentation.",
               "abstract interpretation of LLVM IR by exhaustive cases of the attributes"),
    "C01": mod("races", "Every parallel region as the compiler outlines it: the address of each "
               "shared access as a polynomial over the iteration number, the locks held on every "
               "path, and what each call made in the region changes.",
               "affine dependence test and must-held-lock analysis over LLVM IR with OpenMP "
               "regions outlined"),
    "G01": mod("state", "Every store whose address lies in a global variable or is reached "
               "through one, and every call of an outside function that reads or changes the "
               "state of the process, in every function and parallel region.",
               "effect analysis over LLVM IR"),
}
