#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Edit the list here, rerun, commit both.
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOTEST = "The existing tests only exercise the command-line parser (pkg/core/parser); nothing in the suite executes a flow, touches a file or starts a process. "

p("C01", "A flow runs each command once, in order, and stops at the first failure",
  "Every foreground command of a flow is started exactly once per occurrence, in the order written (nested flows in place, a command's own sub-flow before its script, repeats as many times as asked, joins once per combination of values), and only after the previous command has finished. When a command fails and its errors are not allowed with %err, no later command of that flow or of any enclosing flow is started; when they are allowed the flow goes on with the next command. A command whose script cannot be started counts as failed in the same way. A flow that ticat rejects beforehand - a command anywhere in it is unknown, needs a program that is not installed, or reads an env key nobody provides - starts none of its commands and ends with a non-zero status. A flow that is only described (desc and its variants) runs nothing either.",
  ["programs", "fault_sequences"],
  "all flows built from scripts, sub-flows, script-with-flow commands, repeats, forest mode and %err; a non-zero exit, a killed script, a script that cannot be started, or a file error at any point of the run",
  NOTEST + "The property is about every flow shape combined with every failing position.",
  ["pkg/core/execute/executor.go", "pkg/core/model/cmd.go", "pkg/core/model/forest.go", "pkg/core/model/blender.go"],
  [("sequential execution loop", "executor.go executeFlow/executeCmd"), ("sub-flow then file", "cmd.go executeFileNFlow"), ("script failure to panic unless allowed", "cmd.go executeFile")],
  observe=["external commands started and finished, with their order", "screen output"])

p("C02", "The exit status of ticat tells whether the flow succeeded",
  "A ticat process ends with status 0 exactly when everything it was asked to run succeeded: every foreground command (or its failure was allowed with %err) and every background command that is waited for automatically at the end. Any failure - a script's non-zero exit or kill, a failing builtin, an unusable session or log file, an unknown command - ends it with a non-zero status and an error message, and it always ends: no failure leaves it hanging.",
  ["programs", "fault_sequences", "schedules"],
  "all flows with foreground and background commands, all interleavings of the background commands, and file-system, exec and script failures at any point",
  NOTEST + "Exit-status truth quantifies over where a failure strikes and how background commands interleave with the main flow's end.",
  ["pkg/ticat/ticat.go", "pkg/core/execute/executor.go", "pkg/core/model/bg_tasks.go", "pkg/mods/builtin/bg_tasks.go"],
  [("exit points", "ticat.go run"), ("background result joined into the flow result", "executor.go Run, bg_tasks.go WaitBgTasks")],
  observe=["process exit status", "stderr/stdout error report"])

p("C03", "A saved env file is replaced atomically or not at all",
  "At every instant, whatever happens to a process that is saving the env (crash at any step, write error, full disk, another ticat saving at the same time), the saved env file holds one complete state: the previous one or one that some process finished composing. A save that could not be completed is reported as a failure (non-zero exit), and one reported as done is on disk.",
  ["crash_points", "fault_sequences", "schedules"],
  "every crash point and every single or double I/O fault inside the save, any number of processes saving concurrently with any interleaving of their file operations",
  NOTEST + "No test can stop a process between two system calls or fail one of them.",
  ["pkg/core/model/proto.go", "pkg/mods/builtin/env.go", "pkg/mods/builtin/env_snapshot.go"],
  [("write temp file then rename", "proto.go saveEnvToFile")],
  [("persisted env", "key=value lines loaded at every start", "<ticat>.data/bootstrap.env")],
  ["the env file as a later ticat process sees it", "exit status of the saving process"])

p("C04", "Saved env values survive restarts exactly",
  "After a successful env.save, every later ticat process starts with exactly the saved key-values: any value a user could set (keys of ticat's own such as sys., display., strs. and session apart), unrelated keys untouched, removed keys gone, env.clear-and-save removing all of them. Sessions that never save change nothing on disk. If the saved file cannot be read completely, ticat says so and fails instead of carrying on with part of it and later saving that part.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of sessions that set, remove, save, clear and reload keys with arbitrary values (long values, separators, spaces, marks), with read faults during any load",
  NOTEST + "Durability is a property of histories of several processes, with I/O faults in between.",
  ["pkg/core/model/proto.go", "pkg/core/model/env.go", "pkg/mods/builtin/env.go"],
  [("env encode/decode", "proto.go EnvOutput/EnvInput"), ("layer flattening when saving", "env.go WriteCurrLayerTo / FlattenAll")],
  observe=["env value printed by a later process", "exit status"])

p("C05", "Env snapshots are exact, atomic and never overwritten when told not to",
  "Loading a named snapshot gives a session every key-value that session env had when the snapshot was saved; loading 'non-exist' fills in only keys that have no value. Saving with overwrite=false never changes an existing snapshot, removing one leaves the others alone, and a crash or disk error leaves each snapshot either entirely as before or entirely new, with success reported only for the latter.",
  ["histories", "crash_points", "fault_sequences"],
  "all sequences of snapshot save/load/load-non-exist/list/remove over several sessions and names, with crashes and I/O faults at any point and concurrent savers",
  NOTEST + "Needs histories over several processes plus faults between system calls.",
  ["pkg/mods/builtin/env_snapshot.go", "pkg/core/model/proto.go"],
  [("snapshot save/load", "env_snapshot.go"), ("temp file + rename", "proto.go saveEnvToFile")],
  [("snapshots", "one file per name", "<ticat>.data/env/<name>.env")])

p("C06", "A saved flow is stored whole or not at all, and success is not claimed falsely",
  "Whatever fault strikes flow.save or flow.set-help-str - crash at any step, write error, full disk - every flow file afterwards is either its complete old version or the complete new one, and no other flow file is touched. The command reports success only if the new flow is stored, and a stored flow executes in a later process the same commands that were saved.",
  ["crash_points", "fault_sequences", "programs"],
  "every crash point and I/O fault inside saving/overwriting a flow or its help text, for all flow contents",
  NOTEST + "No test can crash or fail a write half-way.",
  ["pkg/mods/persist/flow_file/flow_file.go", "pkg/mods/persist/meta_file/meta_file.go", "pkg/mods/builtin/flow.go"],
  [("flow file save", "meta_file.go Save/SaveMetaFile, flow_file.go SaveFlowFile")],
  [("saved flows", "one .tiflow file per flow", "<ticat>.data/flows")])

p("C07", "Managing flows never loses or silently overwrites a saved flow",
  "A saved flow's content disappears only when the user removes that flow, or agrees (confirmation or an explicit quiet/overwrite option) to overwrite it. Renaming and moving keep the content under exactly one name, saving or renaming or moving onto an existing flow never replaces it without consent, and an error or crash in the middle of a rename, move, remove or clear leaves every flow that was not yet handled intact.",
  ["histories", "crash_points", "fault_sequences"],
  "all sequences of flow save/rename/move/remove/clear/set-help with user answers (yes, EOF) and faults or crashes at any point",
  NOTEST + "Quantifies over command histories, user answers and crash points.",
  ["pkg/mods/builtin/flow.go", "pkg/utils/misc.go"],
  [("confirmation before overwriting", "flow.go SaveFlow"), ("file moves", "flow.go RenameFlow/moveSavedFlowsToLocalDir, misc.go MoveFile")])

p("C08", "The hub list keeps exactly the repos the user put there",
  "Every hub command changes only the entries it names: adding keeps all other entries and never lists an address twice, enable/disable change only the flag of the matched entries, purge drops only disabled matched entries. The list file is always one complete version even across crashes, disk errors or concurrent hub commands, no entry is lost because the file could not be read completely (of two hub commands at the very same time one's change may win), and the user's own local dirs are never deleted.",
  ["histories", "crash_points", "fault_sequences", "schedules"],
  "all histories of hub add/add-local/update/enable/disable/purge/clear over git repos (with nested sub-repo lists) and local dirs, with crashes and I/O faults at any step and concurrent hub processes",
  NOTEST + "Quantifies over histories, crash points and process interleavings.",
  ["pkg/mods/builtin/hub.go", "pkg/mods/persist/hub_meta/hub_meta.go", "pkg/mods/persist/hub_meta/repo.go", "pkg/mods/persist/hub_meta/hub_repo.go"],
  [("list rewrite through temp file + rename", "hub_meta.go WriteReposInfoFile"), ("match and filter helpers", "hub.go")],
  [("hub list", "one tab separated line per repo: address, parent, path, help, on/off", "<ticat>.data/hub/repos.hub")])

p("C09", "A failed or killed repo fetch can always be retried to success",
  "A hub.add, hub.init or hub.update whose git call fails or that is killed half-way exits non-zero or dies, and never makes a repo that was usable before unusable or unlisted. Once the faults stop, running the same command again succeeds, and then the requested repo and every repo it lists as sub-repo (unless the user disabled that one) are listed, enabled and loadable.",
  ["crash_points", "fault_sequences", "histories"],
  "all trees of repos with sub-repos, git failing before, during or after writing files, ticat or git killed at any step, then a fault-free retry",
  NOTEST + "Recovery after every crash point cannot be sampled by unit tests.",
  ["pkg/mods/builtin/hub.go", "pkg/mods/persist/hub_meta/hub_meta.go", "pkg/mods/persist/hub_meta/hub_repo.go"],
  [("clone or pull", "hub_repo.go updateRepoAndReadSubList"), ("breadth first sub-repo update", "hub_meta.go UpdateRepoAndSubRepos")])

p("C10", "A session record tells what really happened, at every crash point",
  "At any moment, including after the process died at any step, the recorded status of a session can be read and says the truth: each recorded command that says OK ran and succeeded, each that says ERR failed, one without an end was running, skipped ones were not run, and no command that started is missing except the one being started at that instant. A session is reported as done only if its whole flow succeeded, as failed if a command failed or its process died before finishing, and as running only while the process lives.",
  ["crash_points", "programs", "fault_sequences"],
  "all flows (nested, with background commands) crossed with every crash point of the ticat process and every script failure, read back by another process during and after the run",
  NOTEST + "The record must be truthful at every prefix of its file, i.e. for every crash point.",
  ["pkg/core/model/executing.go", "pkg/core/model/executed.go", "pkg/mods/builtin/sessions.go"],
  [("append-only status log", "executing.go ExecutingFlow"), ("status parser", "executed.go ParseExecutedFlow")],
  [("session status", "log of command starts/ends", "<ticat>.data/sessions/<id>/status")],
  ["sessions / sessions.error / sessions.done / sessions.running listings", "session descriptions"])

p("C11", "Retrying a session runs what did not succeed, exactly once, and nothing else",
  "Retrying a failed or killed session executes, in order, exactly the commands that were not recorded as succeeded, each once, and skips those recorded as succeeded. The re-run commands see the env the skipped ones had produced, as if the original run had gone on. Retrying again and again converges: once the cause of failure is gone the retry succeeds, and it runs every remaining command.",
  ["crash_points", "programs", "histories"],
  "all flows (nested flows, script-with-flow commands, repeats) x failing or crash points x up to several retries",
  NOTEST + "Quantifies over every point where the first run can fail or die, and over chains of retries.",
  ["pkg/core/model/executed.go", "pkg/mods/builtin/sessions.go", "pkg/core/model/cmd.go"],
  [("masks from the recorded status", "executed.go GenExecMasks"), ("skip with recorded finish env", "cmd.go Execute")])

p("C12", "Session cleaning never touches running or recent sessions",
  "Starting ticat removes only records of ended sessions older than the configured keep duration, and it does remove those; removing by id, by search or all removes only ended sessions that match unless removal of a running one is forced. The record of a running session is never removed or altered by another process, however process starts, ends, clock steps and cleanings interleave.",
  ["schedules", "histories", "configurations"],
  "any number of concurrently starting/running/ending ticat processes, any age of records and keep duration, clock jumps between processes, dirs with foreign names",
  NOTEST + "Needs several processes, controlled pids and a controlled clock.",
  ["pkg/core/model/session.go", "pkg/mods/builtin/sessions.go", "pkg/utils/misc.go"],
  [("garbage collection at session start", "session.go SessionInit/cleanSessions"), ("pid liveness", "misc.go IsPidRunning")])

p("C13", "Concurrent ticat processes do not disturb each other",
  "Ticat processes running at the same time on one data dir behave, apart from what they deliberately save, exactly as if each ran alone: same commands executed, same env values seen by their scripts, same exit status, own session record and logs complete. In particular no interleaving of their starts, ends and file operations makes one fail or see another's session env. Listing sessions meanwhile shows every session that has ended before.",
  ["schedules"],
  "all interleavings at file-operation granularity of 2-4 processes running arbitrary flows, first start on an empty data dir included",
  NOTEST + "Interleavings of processes are out of reach of unit tests.",
  ["pkg/core/model/session.go", "pkg/core/model/proto.go", "pkg/core/model/executing.go", "pkg/ticat/ticat.go"],
  [("per-process session dir", "session.go SessionInit")])

p("C14", "A delayed command runs exactly once, not early, and is awaited",
  "A command scheduled with %delay starts exactly once, in the background, not before its delay has passed, while the main flow goes on without waiting for it. With automatic waiting on (the default), once the main flow has succeeded ticat does not exit before every scheduled command has finished, whether the other background commands succeed or fail.",
  ["schedules", "programs", "fault_sequences"],
  "all flows scheduling any number of background commands with any delays, any interleaving, failing foreground and background commands",
  NOTEST + "Quantifies over goroutine schedules and timer orders.",
  ["pkg/core/execute/executor.go", "pkg/core/model/bg_tasks.go", "pkg/core/model/sys_argv.go", "pkg/mods/builtin/bg_tasks.go"],
  [("background goroutine", "executor.go asyncExecute"), ("auto wait", "executor.go Run, bg_tasks.go WaitBgTasks")])

p("C15", "Background commands and the main flow do not share env changes",
  "A background command runs with the env and arguments as they were when it was scheduled: nothing the main flow or another background command changes afterwards is visible to it, and nothing it changes is visible to them. Its session files are its own.",
  ["schedules", "programs"],
  "all interleavings of main-flow and background commands that write and read the same keys",
  NOTEST + "Isolation under every interleaving of goroutines cannot be tested by example.",
  ["pkg/core/execute/executor.go", "pkg/core/model/env.go", "pkg/core/model/cli.go"],
  [("env clone and own session dir per background command", "executor.go executeCmd/asyncExecute"), ("Cli clone", "cli.go CloneForAsyncExecuting")])

p("C16", "Output of background commands is complete, ordered and not interleaved",
  "Every byte a background command prints appears on ticat's output exactly once, in the order it was printed, by the time that command has been waited for. Output of one background command is never mixed into another's, and lines of background commands appear only when their turn of waiting comes, never in the middle of the main flow's own output before that.",
  ["schedules"],
  "any number of background commands printing any amount at any time, any interleaving with being brought to the front, failing ones included",
  NOTEST + "The hand-over of a live stream between buffer and screen is schedule-dependent.",
  ["pkg/core/model/screen.go", "pkg/core/model/bg_tasks.go", "pkg/mods/builtin/bg_tasks.go"],
  [("buffered then forwarded stream", "screen.go/bg_tasks.go BgStdout"), ("bring to front before waiting", "bg_tasks.go WaitBgTasks")])

p("C17", "Waiting for background commands works for any target in any order",
  "background.wait, background.wait.last and background.wait.command return after the named background commands have finished, and not before, whatever order they finish or are waited for in, including commands waited for twice or already finished and several with the same name. They never hang once the awaited commands end, never fail because of other background commands, and leave the others running and waitable.",
  ["schedules", "histories"],
  "all sequences of scheduling and waiting by all/last/name over several background commands, with any finishing order",
  NOTEST + "Depends on finishing order and waiting order, i.e. on schedules.",
  ["pkg/mods/builtin/bg_tasks.go", "pkg/core/model/bg_tasks.go"],
  [("task registry", "bg_tasks.go BgTasks"), ("finish notification channel", "bg_tasks.go OnFinish/WaitForFinish")])

p("C18", "Exit hooks run exactly once and match the outcome",
  "When a session ends, the done hook runs once if the flow succeeded and the error hook runs once if it failed, never both, followed by the exit hook once in either case. Hooks run after everything else of the session including awaited background commands, whatever made the flow end: success, failing command, panicking command or failing background command, and a failing hook makes the exit status non-zero.",
  ["programs", "fault_sequences", "schedules"],
  "all flows with any combination of hooks, all kinds of flow outcome and failing hooks",
  NOTEST + "Quantifies over all ways a flow can end.",
  ["pkg/ticat/ticat.go", "pkg/core/execute/executor.go"],
  [("exit event hooks", "ticat.go run/exitEventHook")])

p("C19", "Env changes are handed from command to command without loss",
  "What a finished script wrote to the session env (values set, changed or deleted) is what every later command in the session sees, including commands run by nested ticat calls inside scripts and the callers after such calls return. The env commands (env.set, add, update, map, remove, reset-session) change it in the same way: add leaves an existing value alone, update only changes existing ones, reset-session goes back to the saved values. Values given for one command only, or set inside a sub-flow's own scope, apply there, and a script that cannot be handed the complete current env is not run.",
  ["programs", "fault_sequences"],
  "all flows of scripts that read, write and delete keys, nested ticat calls, with I/O faults on the session env file",
  NOTEST + "The hand-over goes through files between processes; faults can hit each step.",
  ["pkg/core/model/cmd.go", "pkg/core/model/session.go", "pkg/core/model/proto.go", "pkg/core/model/env.go", "pkg/mods/builtin/env.go"],
  [("session env file written before and read after every script", "cmd.go executeFile, session.go saveEnvToSessionFile"), ("env commands", "mods/builtin/env.go")])

p("C20", "A pause or confirmation point is never passed without the user's choice",
  "At a breakpoint, a step pause or a confirmation nothing further is executed until the user's answer arrives: continue runs on to the next breakpoint, step stops before the next command, skip leaves out exactly the current command, quit ends without running anything more, and commands typed in the interactive mode run on their own, the flow waiting until that mode is left. If the input ends instead of answering, ticat stops with a non-zero status without executing the guarded command.",
  ["programs", "schedules", "inputs"],
  "all flows with breakpoints before/after/at end and steps, all sequences of answers arriving at any time, garbage answers, and end of input at any point",
  NOTEST + "Quantifies over sequences of answers and their timing.",
  ["pkg/core/execute/interactive.go", "pkg/core/model/breakpoints.go", "pkg/utils/misc.go"],
  [("pause loop", "interactive.go"), ("confirmation loop", "misc.go UserConfirm")])

p("C21", "Each script run has its own complete log",
  "The output of every logged script run, stdout and stderr, is found complete and in order in its own log file of the session, as well as on the screen, and the session record points to it; no two runs share or overwrite a log. If the log cannot be created or written, that is reported as a failure rather than ignored.",
  ["programs", "schedules", "fault_sequences"],
  "all flows running the same or different scripts repeatedly, in fore- and background and in nested ticat calls, with any output, disk errors and crashes",
  NOTEST + "Uniqueness and completeness quantify over schedules and fault points.",
  ["pkg/core/model/cmd.go", "pkg/core/model/screen.go", "pkg/core/model/bg_tasks.go", "pkg/core/model/executing.go"],
  [("exclusive log file teed from the script output", "bg_tasks.go CmdIO.SetupForExec, cmd.go genLogFilePath")])

p("C22", "One broken module or flow file does not take the others down",
  "When a module meta file, saved flow file or help file is malformed, conflicting, torn or unreadable, ticat still starts, reports the problem, and every other command stays available and behaves the same. Which commands are available depends only on the files present, not on chance.",
  ["inputs", "fault_sequences", "configurations"],
  "any set of good and bad files in the flows dir, local dirs and repos; read faults on any of them at load time",
  NOTEST + "Quantifies over sets of files and read faults.",
  ["pkg/mods/builtin/mod.go", "pkg/mods/persist/mod_meta/mod_reg.go", "pkg/mods/persist/meta_file/meta_file.go", "pkg/core/model/errs.go"],
  [("recover per file", "mod_reg.go RegMod"), ("tolerable error list", "errs.go TolerableErrs")])

p("C23", "Time measurements and pauses follow the clock",
  "sleep and the execution wait pause for at least the requested time; timer.begin/elapsed, mark-time and a command's own timer keys record the time at which the measured command really began and ended and the seconds between, for foreground and background commands alike.",
  ["schedules", "programs"],
  "all durations and all interleavings with other commands, on a controlled clock",
  NOTEST + "Real-time tests cannot control the clock.",
  ["pkg/mods/builtin/misc.go", "pkg/core/model/cmd.go", "pkg/core/execute/interactive.go"],
  [("auto timer", "cmd.go Execute"), ("timer commands", "misc.go")])

p("C24", "Self-tests run isolated from each other and a failure shows",
  "selftest runs every command that carries the tag (and comes from the sources asked for) exactly once and no other command. One after the other, each test starts from the env the selftest itself was given: nothing a test changed is seen by the next one or by the command behind the selftest (only a lone test, which is not isolated, hands its changes on); the first failing test ends the run with a non-zero exit status and an error. In parallel all of them are run whatever the others do, each with an env of its own, the selftest is over only when they all are, and the failed ones are reported. The same isolation holds in any flow in forest mode, and it ends with the flow that asked for it.",
  ["programs", "schedules", "fault_sequences"],
  "all sets of tagged and untagged commands of all kinds from several sources, sequential and parallel, with failing tests, under all interleavings and with faults in any of them",
  NOTEST + "Isolation quantifies over what other tests change and over how they interleave.",
  ["pkg/mods/builtin/misc.go", "pkg/core/model/forest.go", "pkg/core/execute/executor.go", "pkg/core/model/blender.go"],
  [("selftest flow", "misc.go Selftest"), ("env copy per command in forest mode", "executor.go executeFlow, forest.go"), ("inserting the tests into the flow", "blender.go")])

p("C30", "Command lines parse to the flow the user wrote",
  "Splitting a command line into commands, arguments and env settings follows the documented syntax for every input.",
  ["inputs"], "all command lines", "Existing parser tests sample some inputs.",
  ["pkg/core/parser/cmd.go", "pkg/core/parser/env.go", "pkg/core/parser/sequence.go"], [("parser", "pkg/core/parser")])
p("C31", "Abbreviations resolve to one command or env key",
  "An abbreviation of a command or env key resolves to the one full name it was registered for, and conflicting registrations are rejected.",
  ["inputs"], "all command trees and abbreviations", "Not exercised by tests.",
  ["pkg/core/model/cmds.go", "pkg/core/model/env_abbr.go"], [("abbr index", "cmds.go addSubAbbrs")])
p("C32", "The env check before running finds reads without a writer",
  "Before a flow is run, every env key that some command needs and no earlier command or value provides is reported, and no flow that provides all keys is rejected.",
  ["programs"], "all flows and env declarations", "Not exercised by tests.",
  ["pkg/core/model/env_ops.go"], [("env op checker", "env_ops.go")])
p("C33", "Flow templates and argument mapping substitute exactly the given values",
  "Rendering a flow's templates and mapping arguments to env keys yields the texts the documentation defines for all arguments and env values.",
  ["inputs"], "all templates, args and env values", "Not exercised by tests.",
  ["pkg/core/model/template.go", "pkg/core/model/args_auto_map.go", "pkg/core/model/env_mapper.go"], [("template renderer", "template.go")])
p("C34", "Searches and descriptions list exactly the matching commands",
  "find, cmds, desc, tag and help listings show every matching command and nothing else.",
  ["inputs"], "all command trees and search strings", "Not exercised by tests.",
  ["pkg/cli/display/cmds.go", "pkg/mods/builtin/dump_cmds.go"], [("listing", "pkg/cli/display")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
