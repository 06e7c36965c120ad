#!/usr/bin/env python3
"""Writes /verif/known_findings.json: genuine defects that are repaired ("fixed", suppress nothing) or recorded ("open")."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
F = []
def fixed(prop, commit, what):
    F.append({"property": prop, "status": "fixed", "what": "fixed: property=%s %s %s" % (prop, commit, what)})
def known(prop, key, contains, what):
    F.append({"property": prop, "status": "known", "key": key, "contains": contains, "what": what})
fixed("C01", "daf1799", "with %err=ok on a failing command, the command itself was run again or the next one skipped (also C10, C20)")
fixed("C04", "b165856", "a read error or a line over 64KB ended reading an env file silently; the rest of the keys was lost and dropped by the next save")
fixed("C04", "374baf4", "keys or values with newlines or '=' were written to env files that could not be read back")
fixed("C03", "b8e87d3", "two processes saving the same env file shared one tmp file: mixed content or a failing rename (also C13)")
fixed("C02", "470425f", "a nested ticat call in a script emptied the caller's stack; the caller then panicked or reported wrongly (also C19)")
fixed("C04", "847e5ed", "env keys with an empty value were not saved unless a default existed (also C05)")
fixed("C05", "7262ae3", "env.snapshot.save without overwrite replaced a snapshot another process saved in between")
fixed("C06", "4eaf3e2", "flow files were truncated and rewritten in place: a crash or full disk tore them, write errors were ignored")
fixed("C06", "333e4ac", "values with shell special characters were saved unquoted, the saved flow ran something else or could not be parsed (also C11)")
fixed("C07", "ecd922f", "flow.rename and the moves to a dir silently replaced an existing flow")
fixed("C08", "8c382e9", "a read error on the hub list dropped the remaining repos with the next write; concurrent writers shared one tmp file")
fixed("C22", "7c075f1", "one unparsable flow, one empty or unreadable help file made every ticat start fail; an unreadable dir was skipped silently")
fixed("C08", "2fd4edf", "a repo referred to by two repos was listed twice")
fixed("C08", "1279923", "purging an exactly matched repo wrote through a shared slice: an enabled repo got lost and another was listed twice")
fixed("C09", "a09ae35", "a killed or failed clone left a half repo dir, every later hub.add/hub.update then failed in it")
fixed("C08", "d3e286d", "a repo help text with a tab or line break made the hub list unreadable")
fixed("C08", "85ccbc9", "purging a repo deleted the dir which another listed repo uses too")
fixed("C10", "50d897c", "a failed command with allowed errors (%err=ok) was recorded as OK")
fixed("C10", "aac5e34", "a command the user skipped at a break point was recorded as OK, and one that succeeded earlier as skipped")
fixed("C10", "f555012", "a line break in a flow or an env value made the session record unreadable")
fixed("C10", "fb8bc98", "commands inside of an allowed error were missing in sessions.desc")
fixed("C10", "bd2dd28", "a succeeded flow with an allowed error in it was shown as failed, and a retry would run its script again (also C11)")
fixed("C11", "e048bb0", "retrying a session that was itself a sessions.last.retry recursed without end")
fixed("C11", "974b1a3", "a retry ran background commands that had succeeded again")
fixed("C11", "0b17751", "one torn line in the record of an inner flow lost the records of all commands around it: a retry ran succeeded commands again (also C10)")
fixed("C19", "25619be", "values given for one command or in a flow's own scope, {k=v} cmd, did not reach the scripts they were given for")
fixed("C19", "2f72458", "keys deleted from the saved env came back in nested ticat calls, keys deleted in a nested call stayed in its caller (also C11)")
fixed("C11", "7a4cdd4", "a retry let values given for one command only leak into the session, and lost what skipped commands had deleted or a skipped script had set after its sub-flow")
fixed("C17", "0e310ed", "waiting for a background command that is not the earliest one panicked, waiting for it a second time hung or panicked, one of several with the same name was never waited for; a debug print of the name was left in")
fixed("C15", "1092b87", "a background command of a nested ticat call used the session directory of one of its caller when their thread ids were the same")
fixed("C15", "040824d", "a value for one command in a nested ticat call stayed in the session env file and so in the caller's env (follow-up of 25619be)")
fixed("C10", "f2a748e", "a command whose record was torn in its result was shown as ERR though it had succeeded")
fixed("C12", "379f35a", "sessions.remove.by-search removed only the latest of the matching ended sessions")
fixed("C13", "e7e6c05", "two processes starting for the first time, or cloning the same repo, at the same time made one of them fail")
fixed("C13", "7a49fbc", "listing or removing sessions before any session existed ended in a panic about an interface conversion")
fixed("C18", "90b4201", "every nested ticat call of a session ran the session's exit hooks at its own end, before the session ended and as often as there were calls")
fixed("C18", "da7e0f5", "a failing done or error hook kept the exit hook from running")
fixed("C18", "ffa1472", "when the session files of a delayed command could not be set up, ticat died of an uncaught panic of that thread and ran no hooks")
fixed("C14", "5e6f54f", "a delayed builtin on its own ('noop %delay=0', a flow without session) died of an uncaught panic and left a directory in the current directory")
fixed("C20", "e839f79", "stepping over the last command of a subflow did not pause before the command which follows the subflow")
fixed("C20", "b03868a", "'continue' at a pause still paused at the next commands when a step in or a step out was pending")
fixed("C20", "d522c87", "'continue' at a pause of a step still paused between the subflow and the script of the command")
fixed("C20", "9a041df", "a choice which was not offered at a pause (step over, step in, skip) was taken all the same")
fixed("C20", "a6a55c7", "a step was lost at commands which never pause (environment-only, quiet, delayed ones), skipping at an environment-only one panicked")
fixed("C22", "eab4245", "a module which declares an env key with an abbreviation that is an existing env key (a saved one, or one of ticat's own like 'strs') made every ticat command fail: [EnvAbbrs.AddSubAbbrs] ... conflicted")
fixed("C22", "ae37566", "the meta file of a directory changed a command of the same name defined in another repo or as a flow: its arguments, env mappings, quiet-error, source and meta file")
fixed("C22", "c8728eb", "calling a command whose module could not be loaded said 'not valid input' only, the loading failure was not reported")
fixed("C23", "567a374", "sleep dropped the fraction of a second of its duration: sleep 900ms did not pause at all")
fixed("C04", "2cbf6c6", "env keys which only begin with 'session' (session-name=x) were dropped by env.save, env snapshots and the session record: they were lost in later processes and in retries (C03, C05 and C11 see it as well)")
fixed("C06", "d7b1670", "flow.set-help-str dropped the args, env mappings, quiet-error, tags and everything else that is not flow, help, abbrs, trivial, args.auto or pack-subflow from the flow file, and added args.auto")
fixed("C22", "e9e2b84", "which key an argument of a flow with args.auto is mapped to depended on map iteration order: when the same argument name leads to different keys in a nested flow with its own mapping, the same command behaved differently from one call to the next")
fixed("C11", "585b134", "retrying a session with a command without executable or an env-only segment in its flow ran commands again that were recorded as succeeded (and sessions.desc showed the wrong records)")
fixed("C19", "39df50f", "a flow with flow.forest-mode that failed with its failure allowed ended the forest mode of the flow around it: later commands saw each other's env changes (also C24)")
fixed("C01", "2393388", "commands behind a flow.replace ran twice when there was a second flow.replace (or any other) in the flow")
fixed("C02", "5779bb2", "join.run of an unknown command panicked without a message worth it, join.run of a failing command went on and ended with status 0")
fixed("C02", "675bd54", "join.new with a range whose step is zero or negative ([1,3,0]) never ended and took all memory")
fixed("C10", "e86bc32", "a flow with join.run wrote its record twice over, the record was corrupted and a session which succeeded was shown as failed")
fixed("C19", "b724b79", "env.reset-session gave the keys to exclude which had no value an empty one")
fixed("C11", "d22939d", "a retry of a session rendered the flow it retried as a template: argument values with [[..]] in them were changed or made the retry fail")
fixed("C02", "fdd51c3", "a value which includes its own template key (k=[[k]]) made a flow using it hang and take all memory")
fixed("C10", "e034f98", "an error message with a line like '</error>' broke the session record: what ran was shown wrongly and the session could not be retried")
fixed("C20", "c98d51a", "after the interactive mode was left in a nested ticat call, the ticat around it took itself to be in it: it passed break points without a pause")
json.dump({"findings": F}, open(os.path.join(V, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
print(len(F), "findings")
