"""Conformance of the Chrome cache key hash with spec/ChromeHash.tla."""

import gen
import vt

SPEC = "ChromeHash"
MODELS = {
    "quick": [("ChromeHashMC", "ChromeHashMC.cfg")],
    "thorough": [("ChromeHashMC", "ChromeHashMC_thorough.cfg")],
}


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 200, tier)
    for number in range(150 if tier == "quick" else 4000):
        size = rng.choice((number % 20, rng.randrange(60), rng.randrange(200)))
        data = bytes(rng.randrange(32, 127) for _ in range(size)) if rng.random() < 0.5 else gen.blob(rng, size)
        result.append({"name": f"random-{number}", "data": data})
    return result


def observe(scenario):
    from dtformats import chrome_cache

    parts = []
    for key in (scenario["data"], scenario["data"].decode("latin1")):
        result, value = vt.call(lambda k=key: chrome_cache.SuperFastHash(k))
        obs = [{"k": "!hash", "v": vt.nat(value)}] if result == "ok" else []
        parts.append({"obs": obs, "res": result, "bind": True})
    return parts


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
