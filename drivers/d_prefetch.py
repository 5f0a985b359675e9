"""Conformance of the Windows Prefetch hashes with spec/Prefetch.tla."""

import vt

SPEC = "Prefetch"
MODELS = {
    "quick": [("PrefetchMC", "PrefetchMC.cfg")],
    "thorough": [("PrefetchMC", "PrefetchMC_thorough.cfg")],
}
ASSUMPTIONS = ["Windows Prefetch hash: the case mapping of non-ASCII letters is Python's str.upper and not specified; only code points without case are used besides ASCII"]
CASELESS = [0x65E5, 0x672C, 0x20AC, 0xFFFF, 0x1D11E, 0x10FFFF, 0x30C6, 0x5D0, 0x100, 0x2603]


def scenarios(rng, tier, dumped):
    result = []
    for number, (_, scen) in enumerate(dumped):
        if tier != "quick" or number % 2 == 0:
            result.append({"name": f"model-{number}", "points": scen["src"]})
    for number in range(1200 if tier == "quick" else 12000):
        length = rng.choice((0, 1, 3, 4, 5, 7, 8, 9, 12, 16, 30, 64, 120, rng.randrange(250)))
        points = []
        for _ in range(length):
            points.append(rng.choice(CASELESS + [0]) if rng.random() < 0.08 else rng.randrange(32, 127))
        if rng.random() < 0.3:
            points = [ord(c) for c in "\\DEVICE\\HARDDISKVOLUME1\\WINDOWS\\" ][: rng.randrange(33)] + points
        points = [p if p != 0x100 else 0x3042 for p in points]
        result.append({"name": f"random-{number}", "points": points})
    return result


def observe(scenario):
    from dtformats import prefetch

    path = "".join(chr(c) for c in scenario["points"])

    def run():
        return {"k": "!hash", "xp": vt.nat(prefetch.CalculatePrefetchHashXP(path)),
                "vista": vt.nat(prefetch.CalculatePrefetchHashVista(path)),
                "w2008": vt.nat(prefetch.CalculatePrefetchHash2008(path))}

    result, value = vt.call(run)
    return {"obs": [value] if value else [], "res": result, "bind": True}


def trace_input(scenario, _part):
    return {"src": scenario["points"]}
