#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over schedules, network deliveries and faults, judged against a reference model"
SIM = ("Seeded search over simulated executions of the real client stack (generated code, support crate, reqwest, hyper, "
       "tokio) against a scripted fault-injecting HTTP server; every execution is exactly repeatable from its seed and "
       "failing ones are minimised into a replay file. A quiet run is evidence over the executions explored, not a proof. "
       "Trusted: the simulated sockets and clock, the scripted server, the reference model; the generator runs with "
       "stand-ins for dependencies that are not available offline. ")
C = {
 "C01": "Judges every typed value and payload error against the body bytes the server sent and delivered.",
 "C02": "Judges every item and end of every raw stream, and when bytes became available, against what was delivered.",
 "C03": "Judges both directions of every upgraded connection byte for byte, and every refusal.",
 "C04": "Judges the kind and status of every call's outcome against what the server sent, over all operations, styles and faults.",
 "C05": "Judges reported status, headers and content length, also after transformations, against the response head sent.",
 "C06": "Judges request line and headers in the server's log against the caller's arguments.",
 "C07": "Judges the request body the server received against the caller's, under back-pressure, partial writes and cuts.",
 "C08": "Counts the requests the server received for each call.",
 "C09": "Judges items, requests and end of paginated streams against the server's pages.",
 "C10": "Judges the hook log against the server log and outcomes, for sync and async hooks in both styles.",
 "C11": "Concurrent calls with cancellation; outcomes compared with each call's own exchange and with the same call run alone.",
 "C12": "Judges the simulated time at which calls end and whether the client works again after faults stop.",
 "C13": "Judges accessors, text, source chain and conversions of the errors that real faults produce.",
 "C16": "Runs the generated command line over simulated executions; judges requests, reports and results.",
}
SEAM = ("Seeded search over simulated runs of the real, unmodified {what} as a process whose file-system calls, standard "
        "output, clock, random numbers and process number are decided by a preloaded seam; every run is exactly repeatable "
        "from its seed and failing ones are minimised into a replay file. A quiet run is evidence over the executions "
        "explored, not a proof. Trusted: the seam over a scratch directory, the completeness oracle; the generator runs with "
        "stand-ins for dependencies that are not available offline. ")
D = {
 "C14": SEAM.format(what="generator (library and command)") + "Generates each configuration several times under different hash "
        "seeds, clocks, environments, threads, earlier generations and setting orders, and compares the text byte for byte.",
 "C15": SEAM.format(what="crate-generating command") + "Injects failing, short and interrupted calls, full disks and crashes that "
        "lose unsynced data, over any earlier directory content; judges exit status against the files, and the re-run "
        "against an undisturbed one.",
}
C["C17"] = ("Runs every scenario with the clients from the build script, from the macro and from stand-alone crates that include "
            "the support code, and compares requests and outcomes, to the byte and the microsecond.")
C["C22"] = ("Gives the requests that simulated clients really send to the generated mock helpers, with the call's values, other "
            "values and other operations, and lets the scripted server answer what response helpers set up, judging what the "
            "caller gets. The mock library itself is a stand-in that matches as httpmock 0.7 documents.")
NA = {
 "C18": "pure function of one string: no schedule, clock, fault, I/O or second party for a simulator to vary",
 "C19": "pure function of the description; nothing for a simulator to vary (and the real type generator is not available offline)",
 "C20": "pure function of the description; nothing for a simulator to vary",
 "C21": "pure function of the description; nothing for a simulator to vary",
}
checks = [dict(property=k, quick_cmd=f"./check.sh {k} quick", thorough_cmd=f"./check.sh {k} thorough",
               technique=T, level="exploration", level_note=SIM + v) for k, v in C.items()]
checks += [dict(property=k, quick_cmd=f"./check.sh {k} quick", thorough_cmd=f"./check.sh {k} thorough",
                technique=T, level="exploration", level_note=v) for k, v in D.items()]
checks.sort(key=lambda c: c["property"])
m = dict(version=1, setup_cmd="./build.sh all", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo: the simulator takes the place of the operating system behind the libc symbols. "
               "Every check rebuilds generator, generated clients and simulator from /repo's working tree.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
