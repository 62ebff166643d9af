"""Property id -> check."""
import importlib
import vt

MC = "model_checking"
TV = "TLA+ specification, TLC; trace validation of recorded calls (ObsHash)"
TV2 = "TLA+ state machine model-checked by TLC (refinement); TLC-generated histories replayed; trace validation (ObsStream)"
NOTE2 = ("The buffering state machine is model-checked exhaustively at small block sizes to refine the abstract stream; "
         "every (fill level, piece length) transition at the real size and many TLC-generated histories are performed by "
         "the real code in many builds, and TLC accepts or rejects each recorded history, bit exact.")
NOTE = ("Every recorded call of the real code (many builds, placements) is accepted or rejected by TLC against the "
        "executable TLA+ definition, itself anchored in the 891 published values. Holds for the calls recorded; the "
        "generalisation to all inputs rests on the structure of the generated inputs (all lengths, steered "
        "multiplication operands, all placements). ")

TABLE = {
    "C01": ("chk_values", "c01", MC, TV, NOTE),
    "C02": ("chk_streams", "c02", MC, TV2, NOTE2),
    "C03": ("chk_streams", "c03", MC, TV2, NOTE2),
    "C04": ("chk_values", "c04", MC, TV, NOTE),
    "C05": ("chk_values", "c05", MC, TV, NOTE),
    "C06": ("chk_values", "c06", MC, TV, NOTE),
    "C07": ("chk_dispatch", "c07", MC,
            "TLA+ model of probe, resolution and calls checked by TLC; executions on TLC-enumerated mocked processors validated (ObsDispatch)",
            "Every combination of highest CPUID leaf, the four flags and noise in the other bits is enumerated by TLC and "
            "given to the real, compiled code by replacing its CPUID instruction; which implementation is entered, on the first "
            "and later calls, is recorded with breakpoints and judged by TLC."),
    "C13": ("chk_selfcheck", "c13", MC,
            "TLA+ model of the self-checks under faults checked by TLC; verdicts of the real ones under injected faults validated (ObsSelf)",
            "Every reference input of every function is made wrong in every single bit (and many combinations, also only once) "
            "under the real self-checks, leaves and aggregates, and each verdict is judged by TLC."),
    "C14": ("chk_dispatch", "c14", MC,
            "TLA+ model of builds and processors; self-check executions on mocked processors validated (ObsDispatch)",
            "As C07, for what each self-check enters and returns."),
    "C08": ("chk_values", "c08", MC, TV, NOTE),
    "C09": ("chk_memory", "c09", MC,
            "TLA+ model of the read strategies checked by TLC; recorded accesses and guard-page runs validated (ObsAccess, ObsHash)",
            "The read strategies are model-checked for every address, length and option at a small page size; the real code "
            "runs between inaccessible pages in 14 builds, under ASan, and with every load and store recorded (lackey) and "
            "judged by TLC against the entitlement."),
    "C10": ("chk_options", "c10", MC,
            "TLA+ model of the build options (Options); covering rows built and run, values and dispatch validated (ObsHash, ObsOptions)",
            "A pairwise (thorough: 3-wise and random) covering set of the documented options, TLC checking that it covers, is "
            "built and run; every value observed in any build is judged by TLC against the one definition."),
    "C11": ("chk_machines", "c11", MC,
            "TLA+ model of read strategies and builds checked by TLC; executions on emulated foreign machines validated (ObsMachine)",
            "The library, compiled for MIPS, SPARC and ARM of both byte orders and word sizes in many option sets, runs in emulated "
            "cores that trap on any misaligned or foreign access; TLC judges every result against the one definition and the "
            "default selection of the Build model. "),
    "C12": ("chk_reent", "c12", MC,
            "TLA+ model of activations, interruptions and static state checked by TLC; real calls interrupted at every instruction validated (ObsHash)",
            "TLC shows which histories expose any state kept outside a call; the real code is put into all of them: interrupted "
            "before every single instruction by other calls, first calls, long histories, threads; every result is judged by TLC."),
    "C15": ("chk_build", "c15", MC,
            "TLA+ model of the configurations (Build), enumerated by TLC; each real configuration built, inspected, run and validated (ObsBuild)",
            "All 112 sensible x86 configurations of families, AES, runtime selection, indirect functions, define and word size "
            "are built; declarations, definitions, values and self-checks are judged by TLC."),
    "C16": ("chk_streams", "c16", MC, TV2, NOTE2),
    "C17": ("chk_long", "c17", MC,
            "TLA+ definition of long messages (Long, Bulk) evaluated by TLC; hashes of multi-GiB messages and streams validated (ObsLong)",
            "Real calls and streams over repeated mappings of up to several GiB, 64- and 32-bit, cut into pieces in many ways, "
            "are judged by TLC against the same block, start and close steps as the other checks; the walk over whole blocks is "
            "compiled and compared with the TLA+ fold on every run. Holds for the lengths recorded."),
    "C18": ("chk_shared", "c18", MC,
            "TLA+ model of what each configuration exports (Build); libraries built by the Makefile, their symbols and users validated (ObsShared, ObsHash)",
            "The project's own Makefile builds the shared library in many configurations; TLC compares the exported symbols with "
            "the specified set and judges every value and self-check seen by linked C, C++ and dlopen users."),
    "C19": ("chk_toolchains", "c19", MC,
            "TLA+ models of double-word arithmetic (Arith) and of toolchains and platforms (Toolchain) checked by TLC; builds by other "
            "compilers run and validated (ObsHash, ObsDispatch, ObsTool)",
            "All ways of multiplying and adding with carry are model-checked exhaustively at small word sizes. The library is built "
            "and run as MSVC, clang-cl, MinGW, a compiler without GNU extensions, GCC 4.2 and Elbrus's would see it (clang taking on "
            "their macros and data model), and preprocessed and compiled for 38 platforms; TLC judges every value, dispatch, "
            "self-check and platform fact."),
    "C20": ("chk_package", "c20", MC,
            "TLA+ model of what each configuration defines (Build); libraries made by each build description, their symbols and users validated (ObsPackage)",
            "The static library is made by the Makefile and by meson in many configurations, and from the sources and instruction "
            "sets of the Visual Studio projects; TLC compares the names it defines with the specified set, finds names that are not the "
            "library's own, and judges every value and self-check that C and C++ programs linked with it get."),
    "C21": ("chk_program", "c21", MC,
            "TLA+ model of accesses and an optimiser that separates them by type (Alias) checked by TLC; programs generated from a TLA+ "
            "model (ProgramGen), optimised together with the library, validated (ObsProgram)",
            "TLC simulates programs that write objects of many shapes, pass them to every function and to a stream, and write again; "
            "each is compiled and optimised together with the library (link-time optimisation, one unit, GCC and clang, 64 and 32 bits) and "
            "TLC evaluates the hashes of the bytes that were in the object at each call. Holds for the programs generated."),
}
PENDING = {}


def main(pid):
    mod, fn, level = TABLE[pid][:3]
    vt.main(getattr(importlib.import_module(mod), fn), pid, level)
