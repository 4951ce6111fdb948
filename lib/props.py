"""Which harnesses decide which property."""
CORE = ["scisim"]
B2 = ["scisim", "ball2d"]
R2 = ["scisim", "rigidbody2d"]
R3 = ["scisim", "rigidbody3d"]
_CT = ("core_text", CORE, ["core_text.cpp"])
_CM = ("core_math", CORE, ["core_math.cpp"])
_B2 = ("b2", B2, ["b2_contact.cpp", "b2_dyn.cpp"])
_R2 = ("r2", R2, ["r2_contact.cpp", "r2_dyn.cpp"])
_R3 = ("r3", R3, ["r3_contact.cpp", "r3_dyn.cpp"])
_B2F = ("b2f", B2, ["b2_file.cpp"])
_R2F = ("r2f", R2, ["r2_file.cpp"])
_R3F = ("r3f", R3, ["r3_file.cpp"])
_CLI = [("B2", "ball2d_cli", B2, "ball2dcli/ball2d_cli.cpp"), ("R2", "rigidbody2d_cli", R2, "rigidbody2dcli/rigidbody2d_cli.cpp"),
        ("R3", "rigidbody3d_cli", R3, "rigidbody3dcli/rigidbody3d_cli.cpp")]
_B2M = ("b2m", B2, ["b2_mech.cpp"])
_R2M = ("r2m", R2, ["r2_mech.cpp"])
_R3M = ("r3m", R3, ["r3_mech.cpp"])
# property -> list of (binary name, libraries, harness files)
PROPS = {
    "C01": {"bins": [_CT], "scale": 20},
    "C02": {"bins": [_CT], "scale": 20},
    "C03": {"bins": [_CM, _B2, _R2, _R3]},
    "C04": {"bins": [_B2F, _R2F, _R3F], "mains": _CLI, "scale": 6},
    "C24": {"bins": [_B2F, _R2F, _R3F], "scale": 20},
    "C25": {"bins": [_B2F, _R2F, _R3F], "scale": 15},
    "C27": {"bins": [_B2F, _R2F, _R3F], "mains": _CLI, "scale": 6},
    "C05": {"bins": [_CM], "scale": 12},
    "C06": {"bins": [_B2, _R2, _R3], "scale": 8},
    "C07": {"bins": [_B2], "scale": 8},
    "C09": {"bins": [_R3], "scale": 8},
    "C10": {"bins": [_B2, _R2, _R3], "scale": 8},
    "C18": {"bins": [_B2, _R2, _R3], "scale": 8},
    "C19": {"bins": [_B2, _R2, _R3], "scale": 8},
    "C08": {"bins": [_R2], "scale": 8},
    "C17": {"bins": [_R2, _R3], "scale": 8},
    "C23": {"bins": [_R2, _R3], "scale": 8},
    "C11": {"bins": [_B2, _R2, _R3], "scale": 8},
    "C12": {"bins": [_B2, _R2, _R3], "scale": 8},
    "C13": {"bins": [_B2, _R2, _R3], "scale": 2},
    "C14": {"bins": [_B2, _R2], "scale": 8},
    "C15": {"bins": [_R3], "scale": 8},
    "C16": {"bins": [_B2, _R2, _R3], "scale": 8},
    "C20": {"bins": [_B2, _R2, _R3]},
    "C21": {"bins": [_R2, _R3], "scale": 8},
    "C22": {"bins": [_B2, _R2, _R3], "scale": 8},
    "C26": {"bins": [_CM, _B2, _R2, _R3]},
    "C30": {"bins": [_B2, _R2, _R3], "scale": 8},
    "C31": {"bins": [_B2, _R2, _R3], "scale": 8},
    "C32": {"bins": [_R3], "scale": 4},
    "C34": {"bins": [_B2, _R2, _R3], "scale": 4},
    "C35": {"bins": [_B2F, _R2F, _R3F], "mains": _CLI, "py": True, "scale": 4},
    "C36": {"bins": [_R3], "post": True},
    "C37": {"bins": [_B2M, _R2M, _R3M]},
    "C28": {"bins": [_CM], "scale": 12},
    "C29": {"bins": [_CM], "scale": 12},
    # Every subcheck of every property, under AddressSanitizer and UndefinedBehaviorSanitizer
    "C33": {"bins": [_CT, _CM, _B2, _R2, _R3, _B2F, _R2F, _R3F, _B2M, _R2M, _R3M], "mains": _CLI, "san": True, "scale": 0.1},
}
