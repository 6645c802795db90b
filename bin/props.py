"""How each property is checked: the harness crate, and extra parts (sanitizer runs)."""


def plain(crate):
    return dict(crate=crate)


def with_tsan(crate, cmd_env=None):
    def parts(tier):
        return [dict(crate=crate), dict(crate=crate, kind="tsan", part="tsan", env=dict(cmd_env or {}))]

    return dict(crate=crate, parts=parts)


def only_tsan(crate):
    return dict(crate=crate, parts=lambda tier: [dict(crate=crate, kind="tsan")])


PROPS = {
    "C01": plain("vm-ls"),
    "C02": plain("vm-ls"),
    "C03": plain("vm-ls"),
    "C04": plain("vm-ls"),
    "C05": plain("vm-ls"),
    "C06": plain("vm-ls"),
    "C08": plain("vm-ls"),
    "C09": plain("vm-ls"),
    "C10": plain("vm-ls"),
    "C07": plain("vm-ls"),
    "C13": only_tsan("vm-ls"),
    "C11": plain("vm-ls"),
    "C14": plain("vm-ls"),
    "C15": plain("vm-ls"),
    "C20": plain("vm-std"),
    "C21": plain("vm-std"),
    "C22": plain("vm-std"),
    "C23": plain("vm-std"),
    "C24": plain("vm-std"),
    "C25": plain("vm-std"),
    "C26": plain("vm-std"),
    "C27": plain("vm-std"),
    "C12": plain("vm-ls"),
    "C28": plain("vm-std"),
    "C29": plain("vm-std"),
    "C31": plain("vm-std"),
    "C32": plain("vm-std"),
    "C33": dict(
        crate="vm-std",
        parts=lambda tier: [
            dict(crate="vm-std"),
            dict(crate="vm-bihash", part="bihash"),
            dict(crate="vm-std", kind="tsan", part="tsan"),
        ],
    ),
    "C34": with_tsan("vm-std"),
    "C35": with_tsan("vm-std"),
    "C36": plain("vm-std"),
    "C37": plain("vm-std"),
    "C38": plain("vm-std"),
    "C45": plain("vm-std"),
    "C40": plain("vm-l10n"),
    "C41": plain("vm-l10n"),
    "C42": plain("vm-l10n"),
    "C43": plain("vm-l10n"),
    "C44": with_tsan("vm-l10n"),
    "C50": plain("vm-vfs"),
    "C51": plain("vm-vfs"),
    "C52": with_tsan("vm-vfs"),
    "C53": plain("vm-vfs"),
    "C54": plain("vm-vfs"),
    "C55": plain("vm-pkg"),
    "C56": plain("vm-pkg"),
    "C57": plain("vm-pkg"),
    "C58": plain("vm-project"),
    "C59": plain("vm-project"),
    "C60": plain("vm-text"),
    "C61": plain("vm-text"),
    "C62": plain("vm-text"),
    "C63": plain("vm-preview"),
    "C64": plain("vm-preview"),
    "C65": plain("vm-preview"),
    "C66": plain("vm-text"),
    "C67": plain("vm-text"),
    "C68": plain("vm-text"),
    "C69": plain("vm-project"),
    "C70": plain("vm-project"),
}

# Workload sizes, as multiples of the least that makes sense; each part takes about ten seconds.
SCALE = {
    "C01": 40, "C02": 40, "C03": 3, "C04": 4, "C05": 3, "C06": 4, "C07": 2, "C08": 8, "C09": 6, "C10": 3, "C11": 3, "C12": 3, "C13": 3, "C14": 5, "C15": 3,
    "C20": 3, "C21": 20, "C22": 20, "C23": 15, "C24": 4, "C25": 8, "C26": 6, "C27": 6, "C28": 60, "C29": 60, "C31": 40, "C32": 100,
    "C34": 40, ("C34", "tsan"): 60, "C35": 30, ("C35", "tsan"): 60, "C36": 60, "C37": 60, "C38": 400, "C45": 10, "C40": 60, "C41": 40, "C42": 20, "C43": 20,
    ("C33", "tsan"): 3, "C44": 6, "C50": 12, "C51": 12, "C52": 5, ("C52", "tsan"): 10, "C53": 12, "C54": 10, "C55": 30, "C56": 12, "C57": 20, "C58": 1, "C59": 1, "C60": 3, "C61": 4, "C62": 4, "C63": 3, "C64": 3, "C65": 8, "C66": 10, "C67": 8, "C68": 10, "C69": 3, "C70": 20,
}
