"""Which function decides which property, and what to say about it"""
from lib import vf
from checks import codestream, colour, chain, combine, composition, files, filesystem, kdm, language, local_time, package, picture, reel, small, sound, texts, timecode, verify

T_MODEL = "TLA+ specification checked exhaustively with TLC; recorded executions of the real code validated against it"
NOTE_DATA = ("Design: TLC visits every state of the model within the stated constants.  Conformance: the real code, built from the working tree, is judged by the "
             "specification on every spec-enumerated case and on seeded random ones; beyond those it is a sample.  Trusts TLC, the compiler and the driver's projection.")

CHECKS = {
    "C01": local_time.c01,
    "C02": local_time.c02,
    "C03": local_time.c03,
    "C04": files.c04,
    "C05": files.c05,
    "C06": filesystem.c06,
    "C07": filesystem.c07,
    "C08": small.c08,
    "C09": small.c09,
    "C10": small.c10,
    "C11": small.c11,
    "C12": small.c12,
    "C13": colour.c13,
    "C14": colour.c14,
    "C15": colour.c15,
    "C16": colour.c16,
    "C17": timecode.c17,
    "C18": package.c18,
    "C19": composition.c19,
    "C20": reel.c20,
    "C21": kdm.c21,
    "C22": chain.c22,
    "C23": sound.c23,
    "C24": picture.c24,
    "C25": texts.c25,
    "C26": verify.c26,
    "C27": combine.c27,
    "C28": codestream.c28,
    "C29": language.c29,
}

META = {p: (T_MODEL, "model_checking", NOTE_DATA) for p in CHECKS}

NOT_APPLICABLE = {}
HOOKS = None
BUILDS = [local_time.exe, files.exe_file, files.exe_atomic, filesystem.exe, lambda: filesystem.exe(True), small.exe_bits, small.exe_fsk, small.exe_name, lambda: small.exe_name(True), small.exe_guard, small.exe_named,
          colour.exe, colour.exe_asan, colour.exe_tsan, timecode.exe, package.exe, composition.exe, reel.exe, kdm.exe, sound.exe, picture.exe, texts.exe, verify.exe, combine.exe, codestream.exe, language.exe]


def setup():
    """Prebuild every driver; failures are left for the checks to report"""
    for b in BUILDS:
        try:
            b()
        except vf.BuildError as e:
            print(e)
    vf.cleanup()
    return 0
