#!/usr/bin/env python3
# Source of properties.jsonl (kept readable here; run to regenerate).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p("C01","Flushed rule changes reach storage and survive a restart",
"Whenever a flush, an autosaved rule change or a bulk change under autosave returns without error, the attached storage holds exactly what it held before plus and minus every tracked rule change made so far; after a full save it holds exactly the enforcer's rules. An enforcer restarted from that storage, after a crash at any later instant, has those rules and gives the same decisions. This holds for storages that accept one rule at a time, for batch storages and for the built-in file store.",
["histories","crash_points","fault_sequences"],
"every history of rule additions, removals, bulk changes, flushes, saves, loads, option changes and storage faults, over every adapter kind, with a crash and restart after any step",
"The tests count adapter calls for one fixed five-event sequence and save one example file; no test restarts, none checks storage contents after a mixed history, none injects a fault or crash.",
["storage/controller.go","storage/adapter/fileadapter.go","enforcer.go"],
[("pending operation queue fed by model events","storage/controller.go: addOp, Flush, flush, batchFlush"),("whole-set save and load","storage/adapter/fileadapter.go: SavePolicy, LoadPolicy"),("bulk change under autosave","enforcer.go: AddRules, RemoveRules")],
[dict(name="pending queue",meaning="tracked changes not yet accepted by the storage",where="storage/controller.go")],
["storage contents after each successful call","rules and decisions of a restarted enforcer"])

p("C02","Storage errors never lose, repeat or reorder pending changes",
"When the storage rejects an operation, the rejected change and all changes after it stay pending in the order they were made, and the next flush that succeeds delivers all of them. Over any sequence of failures and retries each tracked change is applied to the storage exactly once and in the order it was made; changes the storage has accepted are never sent again.",
["histories","fault_sequences"],
"every history of tracked changes and flushes with the storage rejecting any subset of its calls, for one-at-a-time and batch storages, with and without autosave",
"No test lets an adapter return an error; the mocks count calls and ignore the rules they are given.",
["storage/controller.go"],
[("operations leave the queue only once accepted","storage/controller.go: flush, batchFlush"),("grouping of consecutive operations of one kind","storage/controller.go: batchFlush")],
[dict(name="pending queue",meaning="tracked changes not yet accepted",where="storage/controller.go")],
["sequence of operations applied at the adapter"])

p("C03","A storage failure is reported and never wedges the enforcer",
"When the storage fails during a single or bulk rule change under autosave, a flush, a load or a save, that call returns an error instead of panicking or hiding it, and in-memory rules already changed stay in effect. Afterwards the enforcer stays usable: every later call completes, decisions follow the in-memory rules, storage tracking can still be switched off and on, and later changes are still recorded.",
["histories","fault_sequences"],
"every history with storage failures at arbitrary calls, followed by arbitrary further use",
"No test makes an adapter fail, so no test sees what a failing autosave does to the caller or to the locks and listeners behind it.",
["storage/controller.go","enforcer.go"],
[("error path of autosave","storage/controller.go: addOp; enforcer.go: AddRule, RemoveRule, AddRules, RemoveRules"),("listener re-registration around a load","enforcer.go: LoadPolicy")],
[dict(name="event listeners",meaning="whether changes are being tracked",where="storage/controller.go")],
["returned errors","completion of later calls"])

p("C04","Storage receives exactly the changes its mode calls for",
"With autosave off the storage is not written before a flush or save; with autosave on a single change is in storage when its call returns, a bulk change when the bulk call returns, and under a requested wait of n changes no later than the n-th change and not before it. While storage tracking is switched off, and while rules are being loaded from storage (even by a load that fails), nothing is sent to storage. After the adapter or the model has been replaced, exactly the changes of the current model are sent, to the current adapter only, each once.",
["histories","configurations","fault_sequences"],
"every sequence of mode switches, waits, adapter and model replacements, successful and failing loads, interleaved with rule changes",
"Tests check the option flags and one enable/disable pair; no test combines mode switches with loads, waits, replaced models or failures.",
["storage/controller.go","enforcer.go"],
[("enable/disable of listeners","storage/controller.go: Enable, Disable"),("autosave and wait counter","storage/controller.go: addOp, AddWait, Flush"),("tracking paused during load","enforcer.go: LoadPolicy"),("adapter and model replacement","enforcer.go: SetAdapter, SetModel")],
[],["adapter call log"])

p("C05","Saving the policy file is all-or-nothing",
"If the process or the machine stops, or any file operation fails, at any point while the built-in file store writes its policy file (full save or rule changes), the file afterwards loads as either the complete old or the complete new rule set, never as a missing, partial or mixed one. A save that returned without error survives a power loss right after it, a save that could not be completed returns an error, and no file handle stays open after any save or load.",
["crash_points","fault_sequences","histories"],
"every crash point and every failing file operation (open, create, write, short write, full disk, sync, close, rename, remove) during any save of a history",
"The tests save to a healthy file system and read the result back; nothing fails and nothing crashes.",
["storage/adapter/fileadapter.go"],
[("how the new file contents replace the old","storage/adapter/fileadapter.go: SavePolicy, getWriter"),("read-modify-write of single rules","storage/adapter/fileadapter.go: AddRule, RemoveRule, AddRules, RemoveRules")],
[],["file contents after simulated crash and restart","open handle count"])

p("C06","The policy file gives back exactly the rules that were saved",
"Every rule set the enforcer accepts and saves to the built-in file store is loaded back exactly by a later process, whatever characters other than carriage returns the values contain (commas, quotes, leading or trailing spaces, '#', line breaks, empty or very long values), through any chain of saves, single-rule changes and restarts, and however the file system splits its reads. A file which a user has edited or reformatted in between (comment lines, empty lines, other quoting and spacing, CRLF line ends, no final line end) counts as the rules it lists. If the file is missing or reading it fails part-way, the load returns an error rather than silently yielding a part of the rules.",
["histories","inputs","fault_sequences"],
"every chain of saves, changes, restarts and loads over arbitrary values (values free of carriage returns), with short reads and read errors at arbitrary offsets",
"The one file test uses three rules of plain words and a healthy disk.",
["storage/adapter/fileadapter.go"],
[("line format written","storage/adapter/fileadapter.go: SavePolicy"),("line parsing and read error handling","storage/adapter/fileadapter.go: LoadPolicy, LoadPolicyLine")],
[],["rules after restart","load error"])

p("C07","Loading a damaged policy file fails cleanly",
"Loading a policy file that was truncated, bit-flipped, or overwritten with garbage never panics or hangs: it either returns an error, or returns success having loaded every undamaged line. After such a load the enforcer still works: rules can be added and removed, decisions follow the rules now in memory, and storage tracking is as it was before the load.",
["fault_sequences","inputs","histories"],
"every stored-byte damage (truncation point, flipped byte, garbage insertion) of every saved policy file, followed by further use",
"Tests only load well-formed example files.",
["storage/adapter/fileadapter.go","model/model.go","enforcer.go"],
[("line parsing","storage/adapter/fileadapter.go: LoadPolicyLine"),("rule validation","model/model.go: AddRule"),("tracking restored after load","enforcer.go: LoadPolicy")],
[],["load result","later operations"])

p("C08","Decisions depend only on the current rules, not on their history",
"After any history of rule additions, removals, re-additions, clears, loads, failed loads, storage failures and restarts, every access decision and every filter result equals what the matcher and effect, evaluated rule by rule over exactly the rules now in force, give (an empty policy is evaluated once against a rule of empty values). In particular a removed or cleared rule never keeps granting access and a present rule is never skipped.",
["histories","inputs","fault_sequences"],
"every history of rule changes, loads, clears and failures, for every model with matchers built from and/or alternatives of any number, role functions, path functions and rule expressions, and every request",
"Tests build a policy once and query it; removals and clears followed by decisions, and matchers beyond the shipped examples, are not sampled.",
["model/matcher/matcher.go","model/policy/policy.go","model/model.go","model/defs/matcher_def.go","rbac/role_policy.go","enforcer.go"],
[("incremental rule index kept by listeners","model/matcher/matcher.go: addRule, removeRule, NewMatcher"),("change events of rule sets","model/policy/policy.go, rbac/role_policy.go"),("splitting of matchers into stages","model/defs/matcher_def.go: buildExprTree")],
[dict(name="rule index",meaning="tree of rules by matcher stage",where="model/matcher/matcher.go")],
["Enforce and Filter results against a reference evaluator"])

p("C09","Decisions do not depend on rule enumeration order",
"For every rule set and request the decision is the same whatever order rules are held or visited in, and equals the effect's meaning over the set of matching rules: 'some allow' grants iff a matching rule allows; 'no deny' grants iff no matching rule denies; 'some allow and no deny' grants iff a matching rule allows and none denies. Rules with an unknown effect value count as neither. Filtering yields the same set of rules in every order.",
["schedules","configurations","histories"],
"every enumeration order of the unordered rule containers, every mix of allow, deny, unspecified and unknown effects, every effect expression",
"Go randomises map order, so each test run samples one order; tests use at most one matching rule per effect kind.",
["model/effector/default_effector.go","enforcer.go","model/matcher/matcher.go","model/defs/defs.go"],
[("merging of rule effects","model/effector/default_effector.go: MergeEffects"),("early stop and completion","enforcer.go: enforce"),("effect of one rule","model/defs/defs.go: GetEft")],
[],["Enforce and Filter results under different enumeration orders"])

p("C10","Evaluation failures are reported and never grant access",
"If evaluating a request fails at any point - a matcher function, a rule expression, a role lookup, a missing value, or an effect that is not supported - the request is answered with an error and not allowed, whatever the effect and whichever part of the matcher failed. A filter whose evaluation fails returns an error. The failure leaves nothing behind: later requests are decided as if it had not happened.",
["fault_sequences","inputs","schedules"],
"a failure injected at any evaluation of any function, role lookup or rule expression, in any stage of the matcher, under any enumeration order, effect and history",
"No test makes a matcher function or role manager fail.",
["model/matcher/matcher.go","enforcer.go","model/effector/default_effector.go"],
[("error propagation through matcher stages","model/matcher/matcher.go: rangeMatches, rangeMatchesHelper"),("error handling of the decision","enforcer.go: enforce")],
[],["Enforce and Filter return values"])

p("C11","Concurrent queries do not affect each other",
"When any number of threads query one enforcer at the same time - decisions, filters, role checks, with named or ad-hoc matchers, shared matcher definitions or shared query contexts - while no rules are being changed, every query returns exactly what it returns when run alone, under every interleaving. No query crashes, deadlocks, or makes the runtime abort on unsynchronised map access.",
["schedules","inputs"],
"every interleaving of concurrent read-only queries, at every step of the code, over every model kind",
"All tests are single-threaded.",
["model/matcher/matcher.go","model/fm/function.go","rbac/role_manager.go","rbac/domain_manager.go","util/cache.go","model/defs/matcher_def.go","context.go","enforcer.go"],
[("per-request rule-expression function","model/matcher/matcher.go: RangeMatches"),("temporary roles created by role checks","rbac/role_manager.go: HasLink, GetRoles, GetUsers"),("match result cache","util/cache.go: SyncLRUCache"),("matcher compilation","model/defs/matcher_def.go: Build")],
[],["query results per thread"])

p("C12","Stopped enumerations stop and nested queries do not interfere",
"When the callback of a rule, match or role-link enumeration asks to stop, it is not called again by that enumeration; without a stop every rule, match or link is delivered. Queries made from inside a callback, a rule-change listener of the model or a user-supplied matcher function (not: role-matching functions that query the role manager they are registered on) return what they return on their own and leave the outer query's outcome unchanged.",
["schedules","histories","inputs"],
"every stopping point of every enumeration, every nesting point and inner query, under every enumeration order",
"No test stops an enumeration early or calls the enforcer from a callback or matcher function.",
["rbac/role_manager.go","rbac/domain_manager.go","rbac/role_policy.go","model/model.go","model/policy/policy.go","model/matcher/matcher.go","enforcer.go"],
[("stop propagation","rbac/role_manager.go: rangeLinks; rbac/domain_manager.go: rangeLinks; model/model.go: RangeRules; enforcer.go: RangeMatches"),("per-request rule-expression function","model/matcher/matcher.go: RangeMatches")],
[],["callback invocations","inner and outer results"])

p("C13","Role inheritance reflects exactly the current grants",
"After any history of grants, revocations, clears, matching-function changes and queries, a role check answers exactly whether the current grants connect the two names in that domain: directly, transitively (chains of up to seven grants), through name patterns, and through grants made for a matching domain pattern. Revoking one grant never removes access another grant still gives, granting or revoking reports whether the grant set changed, enumerating lists exactly the current grants, and queries change nothing.",
["histories","inputs","schedules"],
"every history of grants, revocations, clears, matcher changes and queries on plain, pattern, domain and sub-domain role managers (patterns that do not overlap and do not match other patterns), any enumeration order",
"Tests check a few fixed graphs; overlapping domain grants, queries for unknown domains, and revocation after overlap are not sampled.",
["rbac/role.go","rbac/role_manager.go","rbac/domain_manager.go","rbac/role_policy.go"],
[("role graph and pattern matches","rbac/role.go, rbac/role_manager.go"),("copies of pattern-domain grants","rbac/domain_manager.go: AddLink, DeleteLink, getRoleManager"),("temporary roles of queries","rbac/role_manager.go: getRole, removeRole")],
[dict(name="inherited grants",meaning="grants a concrete domain holds because a domain pattern matches it",where="rbac/role.go")],
["HasLink, GetRoles, Range against a reference graph"])

p("C14","Role managers behave atomically under concurrent callers",
"When threads grant, revoke, check, list, enumerate and clear roles on one role manager (with or without patterns and domains) at the same time, every call returns as if the calls had been executed one after another in some order consistent with real time. No grant or revocation is lost because of a simultaneous query, and no call crashes or deadlocks.",
["schedules","histories"],
"every interleaving of concurrent role manager calls",
"All role manager tests are single-threaded.",
["rbac/role_manager.go","rbac/domain_manager.go","rbac/role.go","util/cache.go"],
[("locking of role managers","rbac/role_manager.go, rbac/domain_manager.go"),("temporary roles of queries","rbac/role_manager.go: getRole, removeRole")],
[],["call/return history checked for linearizability"])

p("C15","The shared cache is atomic, bounded and recency-ordered",
"Under concurrent use every read of the synchronised cache returns the value most recently stored for that key or a miss, the cache never holds more entries than its capacity, storing into a full cache evicts exactly the least recently used entry, and storing under an existing key replaces its value - as if the calls ran one at a time in an order consistent with real time. No interleaving corrupts it.",
["schedules","histories"],
"every interleaving of concurrent reads and writes, every capacity of at least one",
"The cache test runs one short single-threaded sequence and never stores a key twice.",
["util/cache.go"],
[("lock around map and recency list","util/cache.go: SyncLRUCache"),("recency list","util/cache.go: LRUCache")],
[dict(name="recency list",meaning="entries from most to least recently used",where="util/cache.go")],
["call/return history checked for linearizability"])

p("C16","Rule changes are truthful and announced exactly once",
"Adding a rule reports success exactly when the rule was absent, removing exactly when it was present, and enumerating rules lists each rule now in force exactly once - for distinct rules however similar their values. Every effective change of a policy or grouping rule is announced exactly once, in order, to every listener registered at that time with the rule that changed, when the change is already in force; ineffective or rejected changes are not announced. Clearing a policy is announced to the policy's own listeners. (A grouping rule has as many values as its definition declares.)",
["histories","inputs","fault_sequences"],
"every history of additions, removals, duplicates, malformed rules, clears, listener registrations and storage failures over arbitrary values, any enumeration order",
"Tests add fixed distinct rules of plain words and never check notifications for duplicates or failures.",
["model/model.go","model/policy/policy.go","rbac/role_policy.go","util/util.go"],
[("rule identity","util/util.go: Hash"),("change events","model/model.go: AddRule, RemoveRule; model/policy/policy.go"),("grouping rules","rbac/role_policy.go")],
[],["return values, enumeration and event log"])

p("C17","Queries leave nothing behind",
"Decisions, filters, role checks and role listings - including failing ones, ones with ad-hoc matchers and ones naming unknown users, roles or domains - leave no lasting state: enumerations, role and domain listings are the same before and after, and the work a later rule change or query takes does not grow with the number of queries made before.",
["histories","fault_sequences"],
"every history of queries of any kind, failing or not, in any number",
"Tests issue a handful of queries and never look at what they leave behind.",
["context.go","enforcer.go","model/matcher/matcher.go","rbac/role_manager.go","rbac/domain_manager.go"],
[("lifetime of ad-hoc matchers","context.go: SetMatcher; model/matcher/matcher.go: NewMatcher"),("temporary roles","rbac/role_manager.go: getRole, removeRole"),("unsaved domain managers","rbac/domain_manager.go: getRoleManager")],
[],["enumerations","simulator step counts of later calls"])

p("C18","Path, glob, regex and IP matching follow their pattern semantics",
"For every path and pattern the built-in matching functions return true exactly when the pattern, read segment by segment ('*' matching any rest, ':name' or '{name}' one segment), or the glob, regular expression or CIDR, matches.",
["inputs"],"every pair of strings","Tests sample a table of pairs.",
["util/builtin_operators.go"],[("matching functions","util/builtin_operators.go")])

p("C19","A model printed as text loads as an equivalent model",
"After any history of setting, replacing and removing definitions, the text the library prints for a valid model loads, directly or from a file and however its reads are split, in a new process, as a model with the same definitions (no more, no fewer) that prints the same text again and decides and filters every request the same way for the same rules - whatever characters the matchers contain ('#', ';', quotes, backquotes, backslashes, line breaks) and whatever order definitions are held in. Definitions set, loaded or built later replace earlier ones completely. Excluded: the model-file syntax '%(name)s', which refers to another key of the file.",
["histories","inputs","crash_points"],
"every history of definitions being set, replaced, removed, loaded and built, printed and reloaded at any point, with arbitrary texts in the matchers",
"One test compares three example files with their printed form; none loads a printed model, and none redefines anything.",
["model/model.go","model/handlers.go","model/defs/defs.go","model/defs/matcher_def.go"],
[("printing and loading","model/model.go: String, LoadModelFromText, loadModelFromConfig"),("replacing definitions","model/handlers.go: add*Def, remove*Def"),("printing of matchers","model/defs/matcher_def.go: String")],
[dict(name="definitions",meaning="definitions and what was built from them",where="model/model.go: defs, pMap, mMap, rpMap, eMap, fm")],
["definitions, text and decisions of the model loaded from the text"])

p("C20","References to unknown definitions are reported as errors",
"Whatever was defined, replaced and removed before: naming a request definition, matcher, policy, role manager, effect, function or section that does not exist (any more), in a rule change, a look-up, a query, a matcher or a model text, yields an error or a not-found result - never a panic, never an allowed request, never a changed rule. The same goes for model texts that are malformed or define a key in the wrong section, and for model files that are missing or cannot be read (which leave the model as it was). What does exist is found, and rules of other definitions stay in effect.",
["histories","inputs","fault_sequences"],
"every history of definitions, removals, rule changes and queries in which any operation names known, unknown, removed or malformed names, and loading a model file fails at any call",
"Tests only name definitions that exist and never remove one.",
["context.go","model/model.go","model/handlers.go"],
[("look-ups","model/model.go: GetRequestDef, GetRoleManager, GetPolicy, GetMatcher, AddRule, RemoveRule, BuildMatcher"),("removal of what was built from a definition","model/handlers.go: remove*Def"),("options of a query","context.go: SetMatcher, SetRequestDef, SetEffector")],
[dict(name="definitions",meaning="definitions and what was built from them",where="model/model.go: defs, pMap, mMap, rpMap, eMap, fm")],
["returned errors and look-up results","rules in effect"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
