import json
ids=["S01","S02","S03","S04","S05","S06","S07","S08","P01","P02","P03","P04","P05","P06","P07","B01","B02","B03","B04","B05","B06","C01","C02"]
TECH="deterministic simulation with fault injection: seeded search over schedules and faults"
common=" Real: src/main.rs, all brack crates, tokio, reqwest/hyper/OpenSSL, extism/wasmtime. Simulated: the operating system behind libc (files, pipes, threads, locks, clock, sockets, randomness) and the plugin registry. Sampling, not exhaustive: nothing is claimed about seeds not run; threads switch only at libc calls; plugins are generated and deterministic."
note={
"S01":"The same byte stream is delivered whole and then cut in seeded ways (single bytes, inside headers, characters and escapes, coalesced); the reply streams must be equal, and equal to those of a reference model of the server.",
"S02":"At every quiescent point of the simulated schedule (all threads blocked, nothing pending) every fully delivered message must have been answered; at end of input the server must exit 0.",
"S03":"The recorded reply history is matched against the recorded request history by id, count and order, with file and network faults injected while requests are served.",
"S04":"Bad messages, unreadable or malformed files, broken plugins and failed downloads are put anywhere in a session; every other request must be answered as the reference model says, and the process must go on until end of input.",
"S05":"The simulated stdout accepts any number of bytes per write, is interrupted, stalls or breaks at any byte; what was accepted must be a prefix of whole well-formed frames, and the process must end when the pipe is gone.",
"S06":"Documents are generated with known diagnostics (built from a tree, not parsed), edited before, between and while saves are served; published diagnostics must equal those of the content on disk.",
"S07":"Documents are generated with known tokens, edited between and while requests are served, read in short pieces; decoded responses must equal those of the content on disk.",
"S08":"Sessions over several projects with edits of Brack.toml, any working directory, seeded hash order and download timing; completion lists must equal the commands of the opened project's plugins.",
"P01":"Every plugin marks its output with its identity; concurrent downloads are interleaved, delayed, chunked and redirected by seed and out/ must name exactly the right plugin everywhere.",
"P02":"Network faults (name resolution, refusal, TLS, status, truncation, reset) and storage faults during build and add; the command must fail, leave nothing usable, and succeed when repeated without the fault.",
"P03":"The process is killed, or power is lost with a seeded choice of surviving unsynced operations, at a seeded operation; the next build and language-server session must be as on a clean project.",
"P04":"Seeded histories of Brack.toml edits with a build after each; outputs must name exactly the current plugins and hooks, and the registry must see requests only for changed ones.",
"P05":"`brack add` under crashes (with torn writes), power loss, full disk and I/O errors; Brack.toml must be byte for byte old or complete, and exit 0 only with the latter.",
"P06":"Seeded sequences of adds: new, duplicate, malformed, failing; Brack.toml is compared as TOML data with the expected configuration and a following build must use exactly it.",
"P07":"Two processes (build and build, or build and language server) run in one simulated machine, interleaved at every system call by seed; both must be right and so must a following offline build.",
"B01":"Builds are repeated under other schedules, worker counts, hash seeds, directory orders, clocks and cache states; out/ must equal the reference compilation each time.",
"B02":"Faults at seeded operations, full disks, bad plugins, uncompilable, malformed and unreadable documents; exit 0 is allowed only with every output complete and correct.",
"B03":"Histories of killed, powerless or failing builds with edits in between; the next undisturbed build must succeed and produce the reference outputs.",
"B04":"Every modification the simulated kernel sees is checked against the command's allowed paths, under faults and crashes; sources must be byte for byte unchanged.",
"B05":"`brack new` with seeded names, pre-existing targets, faults and crashes; the tree, the exit status and a following build are checked.",
"B06":"Seeded projects with contested, missing or wrongly typed hooks are built under any hash and directory order, cache state, faults and crashes, and opened in the server; every build must fail, nothing may be offered, and the corrected project must build.",
"C01":"Seeded documents, plugin directories in seeded order, partial and failing I/O on input and output; stdout and exit status are compared with the reference compilation.",
}
note["C02"]="Seeded documents, levels, plugin directories, partial and failing I/O; the printed form is compared with the one computed from the document's tree: text, positions, structure, arguments, expansions, distinct ids."
na={
"T01":"Tokenising is a pure function of one string: no concurrency, time, I/O or other party takes part, so there is nothing to schedule or to fail. Its visible consequences (diagnostic and token positions, compiled text) are checked as part of S06, S07, B01 and C01.",
"T02":"Parsing is a pure function of a token list; no schedule, fault or history affects it. Panics it would cause in a session are covered by S04.",
"T03":"Error locations are a pure function of the syntax tree; the published ones are compared exactly in S06.",
"T04":"Escapes are resolved by a pure function of the document; what compiled documents look like is compared in B01 and C01, what is decorated in S07.",
"T05":"Argument passing is decided by a pure function of the call and the signature; compiled calls are compared in B01, B02 and C01.",
"T06":"Macro expansion is a pure function of the tree and of deterministic plugins; its result is compared in B01 and C01.",
"T07":"A round trip through serde is a pure function of the configuration value; the round trip `brack add` performs is compared in P06.",
}
m={"version":1,
"setup_cmd":"bash setup.sh",
"checks":[{"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {i}","technique":TECH,"level":"exploration","level_note":note[i]+common} for i in ids],
"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
"notes":"No hooks in /repo: the seam is the C library. The simulator (sim/) links /repo's code and interposes the libc symbols it calls, so one seed is one exactly repeatable execution. `sim/target/debug/brack-sim replay FILE` repeats a recorded violation. See DESIGN.md."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
P=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
assert set(P)==set(ids)|set(na),set(P)^(set(ids)|set(na))
