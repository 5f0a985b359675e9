"""Conformance of the Windows Task Scheduler job file reader with spec/Job.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "Job"
MODELS = {
    "quick": [("JobMC", "JobMC.cfg")],
    "thorough": [("JobMC", "JobMC_thorough.cfg")],
}


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 150, tier)
    for number in range(300 if tier == "quick" else 4000):
        data = struct.pack("<HH16s6H5I8H", *[gen.u(rng, 16) for _ in range(2)], gen.blob(rng, 16), *[gen.u(rng, 16) for _ in range(6)], *[gen.u(rng, 32) for _ in range(5)],
                           *[rng.choice((0, 1, 12, 59, 999, 2012, 65535)) for _ in range(8)])
        hot = []
        data += struct.pack("<H", gen.u(rng, 16))
        for _ in range(5):
            text = rng.choice(gen.WORDS) + rng.choice(("\0", "\0", "", "\0x"))
            raw = text.encode("utf-16-le")
            hot.append((len(data), 2))
            data += struct.pack("<H", len(raw) // 2) + raw
        for _ in range(2):
            size = rng.choice((0, 1, 8, 16, 33))
            hot.append((len(data), 2))
            data += struct.pack("<H", size) + gen.blob(rng, size)
        count = rng.choice((0, 1, 1, 2, 3))
        hot.append((len(data), 2))
        data += struct.pack("<H", count)
        for _ in range(count):
            data += b"".join(struct.pack("<H", rng.choice((0, 1, 48, 2012, 65535, gen.u(rng, 16)))) for _ in range(24))
        data += bytes(rng.choice((0, 0, 2, 68)))
        kind = "random"
        if rng.random() < 0.35:
            kind, data = gen.mutate(rng, data, hot)
        result.append({"name": f"{kind}-{number}", "data": data})
    with open(os.path.join(vt.REPO, "test_data", "wintask.job"), "rb") as file_object:
        result.append({"name": "corpus", "data": file_object.read()})
    return result


def finish(reader, out):
    task = reader.GetWindowsTaskConfiguration()
    out.append({"k": "!task", "app": vt.text(task.application_name), "par": vt.text(task.parameters), "dir": vt.text(task.working_directory),
                "author": vt.text(task.author), "comment": vt.text(task.comment), "retry": vt.nat(task.error_retry_count),
                "interval": vt.nat(task.error_retry_interval), "priority": vt.nat(task.priority), "id": vt.text(task.identifier)})


def observe(scenario):
    from dtformats import job

    return dbg.run_file(lambda debug, writer: job.WindowsTaskSchedulerJobFile(debug=debug, output_writer=writer), scenario["data"], finish=finish)


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
