import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
LS="crates/brack-language-server/src/"
PM="crates/brack-project-manager/src/"
SRV=LS+"server.rs"
p("S01","Language-server replies do not depend on how stdin is chunked",
 "For one byte stream of LSP messages, the language server's sequence of replies is the same however the transport splits or coalesces those bytes: one byte at a time, cut inside a header, inside a multi-byte character or inside an escape, or several messages delivered in a single read. In particular every message is acted on exactly once, in order, and non-ASCII content arrives intact.",
 ["inputs","schedules"],"Every byte-stream of well-formed messages and every partition of it into reads, with any delay between the pieces.",
 "There is no test of the server at all; the chunking is decided by the OS pipe, so no fixed test can visit cuts inside multi-byte characters or coalesced messages.",
 [SRV],[("Server::run","accumulates stdin into a buffer until header and body are complete, then drains that message")],["stdout of `brack language-server`"])
p("S02","Every fully received message is handled without waiting for more input",
 "Once all bytes of a message have been delivered, the language server processes it and emits its replies without needing any further input, even if it arrived in the same read as other messages. When stdin reaches end of file, everything complete before it has been answered and the server exits with status 0.",
 ["schedules","inputs"],"Every arrival pattern of messages, including bursts, pauses of any length and end of file at any point.",
 "Stalls depend on where reads fall relative to message ends; no test drives the read loop.",
 [SRV],[("Server::run","loop that consumes complete messages from the buffer; read of 0 bytes ends the session")],["stdout when the process is blocked on stdin (quiescence)","exit status at EOF"])
p("S03","Each request gets exactly one response, in order; notifications get none",
 "Every request carrying an id, integer or string, receives exactly one response bearing that same id, in the order the requests arrived, with a result or an error; unsupported methods get error -32601. Messages without an id, and replies from the client, never produce a response.",
 ["inputs","histories","fault_sequences"],"Every session history of requests, notifications and client replies, with the server's own file reads failing or succeeding at any point.",
 "Depends on the whole session history and on whether file or plugin I/O fails while a request is being served; no test sends one.",
 [SRV,LS+"request.rs",LS+"request/completion.rs",LS+"request/semantic_tokens.rs",LS+"response.rs"],
 [("Server::dispatch","classifies a message as request, response or notification"),("Server::handle_request","routes a method to its handler and sends the result")],["stdout of `brack language-server`"])
p("S04","One bad message, file or download does not end the session",
 "A malformed message body, missing or invalid parameters, a document that cannot be read or parsed, an unreadable or invalid Brack.toml, a broken plugin, or a plugin download that fails or is never answered leaves the language server running: later well-formed requests are answered exactly as if the bad event had not happened. Only end of input or loss of stdout ends the session.",
 ["fault_sequences","inputs","histories"],"Every session history with faults injected at any file, socket or plugin operation and with malformed messages inserted anywhere.",
 "Tests inject neither I/O failures nor malformed messages; the property quantifies over where in a session they fall.",
 [SRV,LS+"notification.rs",LS+"request.rs",LS+"notification/did_open.rs",LS+"notification/did_save.rs"],
 [("Server::run","error handling around dispatch"),("Server::handle_notification / handle_request","parameter deserialisation")],["stdout and exit status of `brack language-server`"])
p("S05","The reply stream is always well-framed, even when writes are cut short",
 "Everything the language server writes to stdout is a sequence of frames `Content-Length: N`, blank line, then exactly N bytes of valid JSON-RPC 2.0, with nothing in between. Interrupted or partial writes never corrupt, drop, duplicate or interleave frames; if stdout is closed the server terminates on its own instead of hanging.",
 ["schedules","fault_sequences","inputs"],"Every session with stdout accepting any number of bytes per write, being interrupted, blocking for any time, or breaking at any byte.",
 "Partial and interrupted writes never happen in a test harness's pipe; the length header must count bytes, which only non-ASCII content distinguishes.",
 [SRV],[("Server::send_message / send_stdout","frame construction, write_all and flush")],["bytes on stdout"])
p("S06","Published diagnostics describe exactly the file as just saved",
 "After didSave, if the client advertised publishDiagnostics, the server publishes once, for that document's URI, the complete list of bracket and command-shape errors of the file content on disk at that moment, each at the zero-based line and character where it occurs, and an empty list once the file is correct. Nothing is carried over from other files or earlier contents, and without that capability nothing is published. The response to initialize announces that saves are to be notified.",
 ["histories","inputs","fault_sequences"],"Every history of edits, opens and saves over several files, including edits racing with saves and reads that return short or fail.",
 "Stateful over a session with an editor changing files between (and during) reads; tests only check single in-memory conversions.",
 [LS+"notification/did_save.rs","crates/brack-tokenizer/src/tokenize.rs","crates/brack-parser/src/parse.rs","crates/brack-transformer/src/transform.rs","crates/brack-transformer/src/utils.rs"],
 [("handle_text_document_did_save","tokenize, parse, transform, then publish"),("Server::send_publish_diagnostics","capability gate")],["textDocument/publishDiagnostics on stdout"])
p("S07","Semantic tokens describe exactly the file's current content",
 "A textDocument/semanticTokens/full response decodes to precisely the module names, command names and brackets of the requested file's content on disk when the request was handled, each with the legend type for its kind and its exact line, start and length, in document order. Escaped brackets are text and are not decorated. The response to initialize announces these tokens and their legend.",
 ["histories","inputs","fault_sequences"],"Every history of edits and requests over several files with reads returning any number of bytes, and every document.",
 "Needs a session, a changing file and partial reads; tests only cover the tokenizer on a handful of strings.",
 [LS+"request/semantic_tokens.rs","crates/brack-tokenizer/src/tokenize.rs"],
 [("handle_semantic_tokens_full / separate","delta encoding of token locations"),("initialize legend","meaning of the numeric token types")],["textDocument/semanticTokens/full response"])
p("S08","Completion offers exactly the opened project's plugin commands",
 "After a document of a project has been opened, completion triggered by `[` offers exactly the inline commands and by `{` exactly the block commands of the plugins in that project's Brack.toml as of the open, one item per command labelled module.command, each once; other trigger characters offer nothing. The response to initialize announces both characters. Opening a document of another project switches to that project's commands, regardless of the directory the server was started in.",
 ["histories","configurations","schedules"],"Every history of opens across projects, edits of Brack.toml, plugin sets and download timings.",
 "Depends on session history, network timing and hash order; no test starts a server.",
 [LS+"request/completion.rs",LS+"notification/did_open.rs",PM+"project.rs","crates/brack-plugin/src/plugin.rs"],
 [("handle_text_document_did_open","loads the project of the opened file"),("handle_completion","lists commands by type")],["textDocument/completion response"])
p("P01","Each plugin is built with exactly its own downloaded bytes",
 "When `brack build` downloads plugins, every module in Brack.toml is executed with exactly the bytes the registry served for that module's owner, repository, version and backend, whatever the order, delay, chunking or redirection of the downloads. No download's bytes are ever attributed to another module.",
 ["schedules","configurations"],"Every set of plugins and every interleaving, chunking and reordering of their concurrent downloads and of the runtime's worker threads.",
 "Downloads run as concurrent tasks over the network; tests have no network and sample no interleaving.",
 [PM+"project.rs"],[("Project::download_plugins_using_config","one task per plugin, joined, written, recorded"),("PluginSchema::hash_sha256","names the cached file")],["outputs in out/ (each plugin marks its output)","files under plugins/","HTTP requests made"])
p("P02","A failed plugin download installs nothing and is reported",
 "If a plugin cannot be fetched completely - name resolution, connection, TLS, error status, truncated body, reset, a server that stops answering at any point - or cannot be stored, `brack build` and `brack add` exit with a failure and the failed plugin is neither recorded nor usable. Running the same command again once the fault is gone succeeds as if the failure had never happened.",
 ["fault_sequences","schedules"],"Every fault at every point of every download and every file operation that stores it, over any number of attempts.",
 "Requires injecting network and disk faults at each step; tests have neither.",
 [PM+"project.rs",PM+"plugin.rs"],[("status and body checks before writing","download_plugins_using_config, add_plugin"),("atomic store","write of plugin files")],["exit status","plugins/","Brack.toml","result of the retry"])
p("P03","A crash never leaves a plugin in the cache that is not the real one",
 "If the process is killed or power is lost at any moment while plugins are being fetched or stored, the next `brack build` or language-server session behaves as on a clean project: every cached plugin it uses is byte-for-byte the one the registry served, and it completes without manual cleanup.",
 ["crash_points"],"Every crash point (process kill and power loss with unsynced data dropped or torn) during any build or add, and repeated crashes.",
 "A cache hit is decided by file existence alone, so only a crash inside the write exposes it; tests never crash the process.",
 [PM+"project.rs"],[("cache check path.exists()","download_plugins_using_config"),("atomic store","write of plugin files")],["plugins/ after the crash","output of the following build"])
p("P04","The plugins used always match the current Brack.toml",
 "A build after any sequence of configuration edits (version, owner, repository, backend, hook flags, plugins added or removed) uses exactly the plugins and hooks the current Brack.toml names, never a stale cached one. A plugin whose specification has not changed since a successful build is not fetched again and needs no network.",
 ["histories","configurations"],"Every sequence of configuration edits and builds, with the registry and network changing in between.",
 "It is about a history of builds against a cache; tests run no build.",
 [PM+"project.rs",PM+"plugin.rs"],[("cache key","file name derived from the plugin specification"),("FeatureFlag mapping","hook options to feature flags")],["outputs in out/","HTTP requests made"])
p("P05","`brack add` updates Brack.toml all-or-nothing",
 "`brack add` leaves Brack.toml either byte-for-byte as it was or complete with the new plugin; it exits 0 only in the latter case. This holds when it is killed, power is lost, the disk fills or an I/O error strikes at any point.",
 ["crash_points","fault_sequences"],"Every crash point and every file-system or network fault during the command.",
 "Needs a crash or a full disk in the middle of a write of the user's configuration.",
 [PM+"plugin.rs"],[("add_plugin","read config, download, store plugin, rewrite Brack.toml")],["Brack.toml after the run","exit status"])
p("P06","`brack add` keeps the existing configuration and never overwrites a plugin",
 "A successful `brack add github:owner/repo@version` results in a Brack.toml holding everything it held before (document fields, other plugins with their versions and hook flags) plus that one plugin, and stores the served bytes as plugins/<repo>.wasm; edits of Brack.toml that the user makes while the plugin is being fetched are kept as well. Adding a name already present, an unsupported source, a malformed specification or a project without Brack.toml fails and changes no file.",
 ["histories","configurations","inputs"],"Every sequence of add commands on every starting configuration, with network timing varied and edits made meanwhile.",
 "Quantifies over histories of commands with a live registry; tests cover none of it.",
 [PM+"plugin.rs",PM+"config.rs"],[("add_plugin","duplicate check and insertion"),("Serialize/Deserialize for PluginSchema","round trip of the other entries")],["Brack.toml parsed as TOML","plugins/","HTTP requests made"])
p("P07","Concurrent brack processes in one project do not corrupt each other",
 "When two brack processes (builds, or a build and a language server) run at the same time in one project with an empty or partial plugin cache, each that reports success has used complete, correct plugins and out/ ends up correct; afterwards the cache is valid.",
 ["schedules"],"Every interleaving of the two processes' file-system operations and downloads.",
 "Needs two processes interleaved at system-call granularity.",
 [PM+"project.rs"],[("atomic store and cache check","download_plugins_using_config"),("Project::build","writes out/")],["exit statuses","out/","plugins/"])
p("B01","Build output depends only on the project's content",
 "A successful `brack build` writes for every docs/*.[] the compilation of that document with the configured plugins and hooks to out/<name>.<backend>, byte-identical across repetitions. Directory order, hash seeds, plugin order, thread count, scheduling, download timing and whether plugins were cached make no difference, and other files in docs/ are ignored.",
 ["schedules","configurations","inputs"],"Every project and every schedule, directory order, hash seed, thread count, cache state and partial-read pattern.",
 "Iteration orders and schedules vary between runs and machines; tests compile single strings.",
 [PM+"project.rs","crates/brack-codegen/src","crates/brack-plugin/src/plugins.rs"],[("Project::build","per-document pipeline")],["files in out/"])
p("B02","A build that reports success has written every output completely",
 "`brack build` exits 0 only if every document in docs/ was read, compiled and completely written to out/. If reading, compiling or writing any of them fails - I/O error, full disk, short write, plugin failure - it exits non-zero.",
 ["fault_sequences","inputs"],"Every fault at every file operation of a build, and every document that fails to compile.",
 "Disk faults cannot be provoked by ordinary tests.",
 [PM+"project.rs","src/main.rs"],[("error propagation with ?","Project::build, main")],["exit status","files in out/"])
p("B03","A build after an interrupted build equals a fresh build",
 "After any number of builds that were killed, lost power or failed at any point, the next undisturbed `brack build` succeeds and leaves in out/ the same content for every current document as a build of a fresh checkout.",
 ["crash_points","fault_sequences","histories"],"Every crash point and fault in the preceding builds.",
 "Requires crashes inside builds; tests have none.",
 [PM+"project.rs"],[("Project::build","unconditional rewriting of outputs"),("plugin cache","validity after crash")],["files in out/ after recovery"])
p("B04","Commands write only where they are meant to",
 "`brack build` creates and modifies nothing outside out/ and plugins/, `brack compile` modifies nothing at all, and the language server nothing outside plugins/ of opened projects; sources under docs/ and Brack.toml are never touched by any of them, nor by `brack add` except its update of Brack.toml and plugins/. In out/ and plugins/, builds and the language server leave alone what others have put there: they never change or remove a file that is neither an output of a document nor a download of their own. This holds under crashes and errors as well.",
 ["fault_sequences","crash_points","histories"],"Every run of every command, with faults and crashes at any point.",
 "A test sees only the paths it looks at in successful runs.",
 [PM+"project.rs",PM+"plugin.rs","src/main.rs",LS+"notification/did_open.rs"],[("fixed output paths","build, download_plugins_using_config, add_plugin")],["every file-system modification made"])
p("B05","`brack new` creates a complete project or reports failure, and never overwrites",
 "`brack new -n NAME` exits 0 only if NAME/ was created with docs/main.[], a Brack.toml that loads and carries the name, and a .gitignore for plugins and out; the new project builds. If NAME already exists, or any step fails, it exits non-zero and no pre-existing file is changed.",
 ["fault_sequences","inputs"],"Every fault at every file operation, and every pre-existing state of the target path.",
 "No test runs the command, and none can fail a file operation in the middle.",
 ["src/main.rs"],[("new_project","create_dir fails if it exists; errors propagate")],["file tree after the command","exit status","following build"])
p("B06","At most one plugin provides each hook, and it implements it",
 "A project in which two or more plugins enable the same hook (document, stmt, expr or text), or in which a plugin enables a hook it has no command for or whose command does not return the right type, is rejected: `brack build` exits non-zero and the language server offers no commands for it, whatever the order in which plugins are stored, listed and loaded, whatever is cached, and after any failed or killed run. Once Brack.toml is corrected the project builds, and hooks that are not enabled are not required.",
 ["inputs","schedules","histories","fault_sequences"],"Every set of plugins, hash order and history of builds before it.",
 "The order of the plugins comes from a randomly seeded hash table; tests see one order and a correct project.",
 ["crates/brack-plugin/src/plugins.rs","crates/brack-plugin/src/plugin.rs",PM+"project.rs"],[("Plugins::new","one plugin per hook"),("Plugin::new","an enabled hook exists and has the right type")],["brack build exit status","completion replies"])
p("C01","`brack compile` prints the exact compilation or fails, under any I/O behaviour",
 "`brack compile` of a valid document with a plugin directory prints exactly its compilation followed by a newline and exits 0, however short or interrupted its reads and writes are and in whatever order the directory lists the plugins. If a file cannot be read, output cannot be written, a plugin is broken, or the document has errors or uses an unknown module or command or a wrong number of arguments, it exits non-zero and never prints a partial compilation as if it were complete.",
 ["inputs","schedules","fault_sequences"],"Every document, plugin directory, directory order, partial I/O pattern and I/O fault.",
 "Partial I/O, directory order and faults are environment choices that no unit test controls.",
 ["src/main.rs","crates/brack-tokenizer/src/tokenize.rs","crates/brack-codegen/src"],[("run_compile","plugin discovery and pipeline")],["stdout and exit status"])
p("C02","`brack compile` shows exactly the requested intermediate form of the document",
 "With `--output-level` 1 to 4, `brack compile` of a document prints that document's whole intermediate form and exits 0, however short or interrupted its reads and writes are. At level 1 the tokens and at level 2 the leaves of the syntax tree, put together in order, are the document's text, each with the line and column (in grapheme clusters) at which it starts and ends; level 3 holds exactly the document's statements, command calls, arguments and text; level 4 the same with every macro call replaced by its expansion. No two nodes of a tree share an id. It exits non-zero, and never prints a partial form as if it were complete, for an unknown level, `--json` at level 5, a file not named *.[], a file that cannot be read, output that cannot be written, and at level 4 for a document with errors or a failing macro.",
 ["inputs","schedules","fault_sequences"],"Every document, level, plugin directory, directory order, partial I/O pattern and I/O fault.",
 "Tests compare a few fixed documents in memory; none runs the command, none reads or writes in pieces or fails a call.",
 ["src/main.rs","crates/brack-tokenizer/src/tokenize.rs","crates/brack-parser/src/parse.rs","crates/brack-transformer/src/transform.rs","crates/brack-expander/src/expand.rs"],[("run_compile","stops after the stage of the level and prints its result"),("expander","replaces macro calls")],["stdout and exit status"])
# not applicable: pure functions
def na(id,title,st,files,mech,obs):
    p(id,title,st,["inputs"],"Every input text / syntax tree / configuration value.","Unit tests fix a handful of inputs; the property is over all of them.",files,mech,obs)
na("T01","Tokenization is lossless and positions are exact",
 "Concatenating the source text of the tokens of any document gives back the document, and every token's location is the line and grapheme column where its text starts and ends.",
 ["crates/brack-tokenizer/src"],[("dispatch and per-token functions","tokenizer state machine")],["brack compile --output-level 1 --json"])
na("T02","The parser is total and keeps every token",
 "Parsing any token sequence yields a syntax tree containing every token once and in order, never a panic or an error.",
 ["crates/brack-parser/src"],[("parse and its combinators","crates/brack-parser/src/parse.rs")],["brack compile --output-level 2"])
na("T03","Errors are located inside the construct that caused them",
 "Every transformation error carries a location that lies within the document and covers the offending bracket or token.",
 ["crates/brack-transformer/src"],[("check functions","utils.rs, angle.rs, curly.rs, square.rs")],["diagnostics"])
na("T04","A backslash makes exactly the next special character literal",
 "In any document an escaped bracket, comma, dot, backslash or newline marker is rendered as that character and has no structural effect.",
 ["crates/brack-tokenizer/src/backslash.rs","crates/brack-parser/src/escaped.rs"],[("escaped parser","escaped.rs")],["compiled text"])
na("T05","Command arity is enforced and arguments map to parameters in order",
 "A command call compiles if and only if the number of its arguments is admitted by the command's signature, and each argument reaches the parameter at its position with optional and variadic parameters filled accordingly.",
 ["crates/brack-codegen/src/square.rs","crates/brack-codegen/src/curly.rs","crates/brack-plugin/src/types.rs"],[("arg_counter","types.rs")],["plugin input"])
na("T06","Macros are expanded completely before code generation",
 "Every macro call in a document, nested or produced by another macro, is replaced by its expansion before code generation, or the compilation reports an error.",
 ["crates/brack-expander/src/expand.rs"],[("expander","expand.rs")],["brack compile --output-level 4"])
na("T07","Configuration survives a load/store round trip",
 "Serialising any loaded configuration and loading it again gives the same document fields and plugin specifications.",
 [PM+"config.rs",PM+"plugin.rs",PM+"document.rs"],[("serde implementations","plugin.rs")],["Brack.toml"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
