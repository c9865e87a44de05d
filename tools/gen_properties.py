#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

DT="pkg/models/datatypes/"
BT="internal/datastructures/btree/"
BA="internal/datastructures/btree_associated/"
BO="internal/datastructures/btree_one_to_many/"
QA="pkg/models/api/common/v1/query_associated_action/"
QM="pkg/models/api/common/v1/query_match_action/"
V1="pkg/models/api/common/v1/"
LM="internal/locker/lock_manager/"
LI="internal/limiter/"
QC="internal/willow/brokers/queue_channels/"
QU="internal/willow/brokers/queues/"

p("C01","Typed values have one consistent total order",
 "For all values that pass validation, the strict comparison (the one in which the 'any' type is the greatest type) is a strict total order: irreflexive, transitive, and two values are unordered exactly when they have the same type and equal data. The general comparison agrees with it whenever neither value is of the 'any' type, and never orders a value before or after 'any'.",
 ["inputs"],"every pair and triple of typed values, over all 14 data types and all data of each type",
 "Tests compare a handful of literals per type; order laws quantify over all triples of values across all types.",
 [DT+"encapsulated_value.go",DT+"datatypes.go"],[("Less / LessMatchType",DT+"encapsulated_value.go"),("DataType order",DT+"datatypes.go")],
 ["EncapsulatedValue.Less","EncapsulatedValue.LessMatchType"])
p("C02","Typed values survive encoding and decoding unchanged",
 "Encoding any valid typed value to its wire string form and decoding it again under the same type yields a value of the same type with equal data. Decoding never yields data whose Go type differs from the declared type, refuses numbers that do not fit the declared width or sign, and refuses unknown types and missing data.",
 ["inputs"],"every typed value of every data type, and every (type, number) pair offered to the decoder",
 "Tests round-trip one literal per type; width and sign mistakes show only at boundary values of particular types.",
 [DT+"encapsulated_value.go",DT+"map_string_encapsulated_value.go"],[("StringEncoding / StringDecoding",DT+"encapsulated_value.go")],
 ["StringEncoding","StringDecoding"])
p("C03","Only well-typed values, key sets and queries pass validation",
 "A typed value passes validation exactly when its declared type lies in the allowed range, is a known type, and its data has exactly that Go type ('any' carries no data; a floating-point value is a number, not NaN). A key-value set passes exactly when it is non-empty and all its values pass, and a query passes exactly when all its comparisons, values, type ranges and key-count bounds are well formed, at every nesting level.",
 ["inputs"],"every combination of declared type, data type, allowed range and query shape within the bounds",
 "Tests try a few malformed literals; acceptance must be decided for every combination of type, data and range.",
 [DT+"encapsulated_value.go",DT+"datatypes.go",DT+"map_string_encapsulated_value.go",QA+"selection.go",QA+"value_query.go",QA+"associated_action_query.go",QM+"match_query.go",V1+"type_restrictions.go",V1+"data_comparison.go"],
 [("Validate methods",DT+"encapsulated_value.go")],["Validate"])
p("C04","The ordered store behaves exactly like a map",
 "After any sequence of create, create-or-find and delete operations, the ordered store holds exactly the keys created and not since deleted, each with the item its creation supplied; create on a present key is refused without calling the creator, create-or-find hands over the stored item, and deleting an absent key changes nothing. The store reports empty exactly when it holds no key.",
 ["histories","inputs"],"every operation history within the bound, with arbitrary typed keys (including 'any') and every relative order of the keys",
 "Split, rotate, merge and promote paths of the tree depend on the relative order and number of keys; tests fix a few insertion orders.",
 [BT+"threadsafe_create.go",BT+"threadsafe_delete.go",BT+"threadsafe_find.go",BT+"threadsafe_b_tree.go"],
 [("node split/insert",BT+"threadsafe_create.go"),("swap, rotate, merge on delete",BT+"threadsafe_delete.go")],
 ["Create","CreateOrFind","Find","Delete","Empty"])
p("C05","Ordered-store range lookups return exactly the right keys",
 "Each lookup (equal, not equal, less, less-or-equal, greater, greater-or-equal, with a type range) calls back exactly once for every stored key that satisfies the comparison and lies in the type range, and for no other key. A callback that asks to stop receives no further calls. Lookup by the 'any' type within a range that includes it visits every stored key in the range.",
 ["inputs","histories"],"every stored key set within the bound, every lookup key, every type range, every stopping point",
 "Tests use fixed ladders of integer keys; the answer depends on where the lookup key and the type range fall relative to every node boundary.",
 [BT+"threadsafe_find.go"],[("iterate*",BT+"threadsafe_find.go")],
 ["Find","FindNotEqual","FindLessThan","FindLessThanOrEqual","FindGreaterThan","FindGreaterThanOrEqual"])
p("C06","A refused create or removal leaves every store unchanged",
 "When the caller's creation callback supplies nothing, or its removal callback says no, the ordered store, the record index and the grouped record store hold exactly what they held before, for every position of the key. Every later operation behaves as if the refused one had not happened.",
 ["histories","inputs"],"every store state and key position within the bound, followed by arbitrary further lookups",
 "Tests refuse a create only on a nearly empty store; corruption depends on where in a node the refused key falls.",
 [BT+"threadsafe_create.go",BT+"threadsafe_delete.go",BA+"threadsafe_create.go",BA+"threadsafe_delete.go"],
 [("create abort path",BT+"threadsafe_create.go"),("canDelete",BT+"threadsafe_delete.go")],["Create","CreateOrFind","Delete"])
p("C07","Every store call returns and never blocks later callers",
 "Every call on the ordered store, the record index or the grouped record store with valid parameters returns, and once it has returned (with or without an error) it holds nothing that could block a later call: any later read or write on the same store also completes. This includes calls that find nothing, are refused, stop early, or use a type range that excludes the lookup key.",
 ["inputs","histories"],"every call with every lookup key, type range and stored key set within the bound, followed by further reads and writes",
 "Tests rarely follow an odd lookup with a write on the same store; a lock left held shows only on the next writer.",
 [BT+"threadsafe_find.go",BT+"threadsafe_create.go",BT+"threadsafe_delete.go",BT+"threadsafe_destroy.go",BA+"threadsafe_query.go",BA+"threadsafe_delete.go"],
 [("hand-over-hand locking",BT+"threadsafe_find.go")],["all BTree, BTreeAssociated and BTreeOneToMany calls"])
p("C08","Concurrent ordered-store operations are atomic and deadlock free",
 "When several callers operate on one ordered store at the same time, every call returns and the results equal those of some sequential order of the calls that respects which call finished before another began. In particular exactly one of several concurrent creates of a key succeeds, and no stored key is lost or visited twice by a concurrent lookup of that key.",
 ["schedules","inputs"],"every interleaving of two or three concurrent calls within the preemption bound, with arbitrary keys on small trees",
 "The existing parallel tests sample a few schedules; lock hand-over errors need a particular interleaving with a split or merge.",
 [BT+"threadsafe_b_tree.go",BT+"threadsafe_create.go",BT+"threadsafe_delete.go",BT+"threadsafe_find.go"],
 [("node and tree locks",BT+"threadsafe_b_tree.go")],["concurrent Create/CreateOrFind/Find/Delete"])
p("C09","The record index keeps one record and one id per exact key-value set",
 "After any history of creates and removals the record index holds at most one record for an exact set of typed key-values (key sets that differ in any key, type, value or in having fewer or more keys are different records). Creating an existing set is refused, create-or-find returns the same record and the same id for as long as the record lives, and two live records never share an id.",
 ["histories","inputs"],"every history within the bound over key-value sets that may share, extend or overlap each other's keys and values",
 "Tests create a few disjoint sets; confusion between records needs overlapping sets, shared prefixes and a particular history.",
 [BA+"threadsafe_create.go",BA+"threadsafe_find.go",BA+"threadsafe_associated.go"],
 [("CreateOrFind over per-key id nodes",BA+"threadsafe_create.go")],["Create","CreateOrFind"])
p("C10","A record query returns exactly the records that satisfy it",
 "For every valid query, the record index calls back exactly once for every record that satisfies the query and for no other: a selection holds when the record is among the listed ids (if any), has an allowed number of keys and satisfies every key comparison within its type range (the '!=' comparisons of one selection together exclude a record that has every one of those keys, in its type range, with that value). A query holds when its selection and all its And parts hold, or when any of its Or parts holds; an empty query selects everything.",
 ["inputs","histories"],"every query shape within the bound (comparisons, ids, key-count bounds, And/Or nesting) against every record set within the bound",
 "Tests pair fixed record sets with fixed queries; index intersection errors appear only for particular combinations of comparisons and records.",
 [BA+"threadsafe_query.go",BA+"threadsafe_find.go",QA+"selection.go",QA+"associated_action_query.go"],
 [("findIDs set algebra",BA+"threadsafe_query.go")],["QueryAction"])
p("C11","Match lookups return exactly the records contained in the given key-values",
 "Matching a key-value set against the record index calls back exactly once for every record whose every key appears in the given set with a matching value (equal value, or a wildcard 'any' where the match allows it) and whose number of keys is within the requested bounds, and for no other record.",
 ["inputs","histories"],"every record set and every match request within the bound, with arbitrary typed and wildcard values",
 "Tests match a few literal sets; misses depend on how wildcard and concrete values of the same keys are combined over several records.",
 [BA+"threadsafe_match.go",QM+"match_query.go",QM+"match_key_values.go"],
 [("MatchAction id counting",BA+"threadsafe_match.go")],["MatchAction"])
p("C12","Removing a record removes exactly that record",
 "Removing a record by its exact key-values or by its id removes that record and no other, whatever keys and values other records share with it; the removal callback sees the record being removed. Afterwards lookups of every kind no longer find it, all other records are still found by every kind of lookup, and the same key-value set can be created again as a new record with a new id.",
 ["histories","inputs"],"every create/remove history within the bound over overlapping key-value sets",
 "Tests delete from small disjoint sets; stale or over-deleted index entries need overlapping records and a later query.",
 [BA+"threadsafe_delete.go",BA+"threadsafe_destroy.go"],[("Delete / DeleteByAssociatedID",BA+"threadsafe_delete.go")],["Delete","DeleteByAssociatedID","DestroyByAssociatedID"])
p("C13","Matching tags against a query agrees with querying the index",
 "Asking whether a query matches a set of key-values (as done to route a newly created channel to waiting consumers) answers yes exactly when a record with those key-values would be returned by the same query.",
 ["inputs"],"every query without ids, within the bound on keys, comparisons and And/Or nesting, against every key-value set",
 "The two evaluators are separate implementations; tests check each on a few literals and never against each other.",
 [QA+"associated_action_query.go",QA+"selection.go"],[("MatchTags / MatchKeyValues",QA+"associated_action_query.go")],["AssociatedActionQuery.MatchTags"])
p("C14","Grouped records never cross their owner",
 "In the grouped record store, creating, finding, querying, matching or removing records under one owner never returns, changes or removes a record of another owner, even when key-values are identical; within one owner a key-value set is unique. Removing the last record of an owner, or an owner as a whole, leaves all other owners' records intact and lets the owner be used again.",
 ["histories","inputs"],"every history within the bound over two owners with arbitrary, possibly equal, key-values",
 "Tests exercise one owner at a time with fixed values.",
 [BO+"threadsafe_create.go",BO+"threadsafe_delete.go",BO+"threadsafe_destroy.go",BO+"threadsafe_query.go",BO+"threadsafe_match.go"],
 [("per-owner tree",BO+"one_to_many.go")],["CreateOrFind","QueryAction","MatchAction","DeleteOneOfManyByKeyValues","DestroyOne","DestroyOneOfManyByID"])
p("C15","Destroying refuses new work, waits for running work and happens once",
 "Once a destroy of a store (or a key of it) has begun, every other call on it (or that key) is refused with the destroying error or finished before the destroy looked at the data; a destroy that completes has offered every stored item to the removal callback exactly once. A destroy that its callback stops leaves the store usable with the remaining items.",
 ["schedules","histories"],"every store content within the bound, every stopping point, and every interleaving of a destroy with other calls within the preemption bound",
 "Tests run one destroy against a sleeping goroutine; refusal and hand-over windows need particular schedules.",
 ["pkg/async/destroy.go",BT+"threadsafe_destroy.go",BA+"threadsafe_destroy.go"],[("DestroySync",'pkg/async/destroy.go')],["DestroyAll","Destroy","DestroyTree","GuardOperation"])
p("C16","Key combinations are generated exactly once each",
 "For distinct strings and any size bounds, the combination generator returns every subset whose size lies within the bounds exactly once and nothing else, ordered by size and then by content, without modifying or sharing memory between results; contradictory bounds are refused.",
 ["inputs"],"every list of distinct strings and all bounds within the size bound",
 "Tests list expected results for a few sizes and bounds.",
 ["pkg/datamanipulation/slice_manipulation.go"],[("GenerateStringPermutations","pkg/datamanipulation/slice_manipulation.go")],["GenerateStringPermutations"])
p("C17","Set operations are exact set algebra",
 "Adding, bulk adding, removing, intersecting, clearing and listing on the set type give the mathematical result for every sequence of operations: no lost, duplicated or surviving elements, and a size equal to the number of distinct elements.",
 ["histories","inputs"],"every operation sequence within the bound with arbitrary elements",
 "Tests run fixed element lists.",
 ["internal/datastructures/set/set.go"],[("set","internal/datastructures/set/set.go")],["Add","AddBulk","Remove","Intersection","Values","SortedValues","Size","Clear"])
p("C18","An accepted counter never takes a group past its limit",
 "Whenever a counter increment by one is accepted, then for every rule whose key-values the counter matches (or, where overrides of that rule match, for every matching override) with a non-negative limit, the total of all counters sharing the counter's values for that rule's or override's keys was below the limit before and does not exceed it afterwards; a limit of -1 never refuses and a limit of 0 always does. An increment that violates no limit is accepted.",
 ["inputs","histories"],"every set of rules, overrides, limits and existing counters within the bound, and every increment",
 "Limit enforcement depends on combinations of rules, wildcards, overrides and already stored counters; tests fix a few combinations.",
 [LI+"counters/counter_client_local.go",LI+"rules/rules_client_local.go",LI+"overrides/overrides_client_local.go"],
 [("IncrementCounters / checkCounters",LI+"counters/counter_client_local.go"),("FindLimits",LI+"rules/rules_client_local.go")],["IncrementCounters","QueryCounters"])
p("C19","Counters count exactly",
 "Each stored counter equals the sum of the accepted changes to its exact key-values since it was last set or removed: a refused increment changes nothing, a set replaces the value, a counter that falls to zero or below disappears, and decrementing an absent counter has no effect. No operation on one key-value set changes the counter of another.",
 ["histories","inputs"],"every history of increments, decrements and sets within the bound with arbitrary amounts over overlapping key-value sets",
 "Tests apply short fixed histories to one counter.",
 [LI+"counters/counter_client_local.go",LI+"counters/memory/counter.go"],[("Update / Set / Delete",LI+"counters/counter_client_local.go")],["IncrementCounters","DecrementCounters","SetCounter","QueryCounters"])
p("C20","The limits applied are the matching rules and their matching overrides",
 "For any key-values, the limits looked up are exactly the rules contained in them (wildcards matching any value), each with exactly its own overrides that are contained in them, except that the lookup may end early once a limit of 0 has been found, in which case that limit comes last. Updating or deleting a rule or override is reflected in the next lookup.",
 ["inputs","histories"],"every set of rules and overrides within the bound and every looked-up key-value set",
 "Tests look up fixed rules with fixed values.",
 [LI+"rules/rules_client_local.go",LI+"overrides/overrides_client_local.go"],[("FindLimits / FindOverrideLimits",LI+"rules/rules_client_local.go")],["FindLimits","MatchRules","MatchOverrides"])
p("C21","Rules and overrides keep a faithful life cycle",
 "A created rule or override can be read back with the given key-values and limit until it is deleted, a duplicate is refused with a conflict, an override is accepted only if it names all keys of its rule, and updates change only the addressed limit. Deleting a rule deletes its overrides; operations addressing an unknown or deleted rule or override report not found and change nothing (deleting an override that does not exist is a successful no-op).",
 ["histories","inputs"],"every history within the bound of rule and override operations over arbitrary key-values",
 "Tests check each call in isolation.",
 [LI+"rules/rules_client_local.go",LI+"overrides/overrides_client_local.go",LI+"rules/memory/rule.go",LI+"overrides/memory/memory_override.go"],
 [("localRulesClient",LI+"rules/rules_client_local.go")],["CreateRule","GetRule","UpdateRule","DeleteRule","CreateOverride","GetOverride","UpdateOverride","DeleteOverride"])
p("C22","A lock has at most one holder",
 "At any moment at most one client holds the lock for an exact key-value set: a second client's request for the same set is granted only after the holder released it or its timeout passed without a heartbeat. Locks on different key-value sets never wait for each other, and every grant carries a fresh session id.",
 ["schedules","histories"],"every interleaving within the preemption bound of clients obtaining, heartbeating and releasing locks with arbitrary key-values, and every timer order",
 "Lock-manager tests rely on sleeps and see a handful of schedules.",
 [LM+"exclusive_lock.go",LM+"exclusive_locker.go"],[("claim channel and session id",LM+"exclusive_lock.go")],["ObtainLock","Release"])
p("C23","A freed lock goes to a waiting client and nothing is stranded",
 "When a lock is released, expires, or a waiting client disconnects, every call in progress completes and, if clients still wait for the lock, one of them obtains it; when nobody holds or waits for it any more it disappears from the listing and can be obtained afresh at once. No interleaving of obtain, release, heartbeat, listing, expiry, disconnect and service shutdown leaves a caller blocked for ever; a stopped service turns requests away.",
 ["schedules","histories"],"every interleaving within the preemption bound of up to three clients, including disconnects and expiry at any point",
 "Lost wake-ups need an exact interleaving of the lock's goroutine with clients.",
 [LM+"exclusive_lock.go",LM+"exclusive_locker.go"],[("Execute loop",LM+"exclusive_lock.go")],["ObtainLock","Release","LocksQuery"])
p("C24","Only the holder's session can extend or release a lock",
 "A heartbeat or release succeeds only when it names a held lock's id together with the session id issued to the current holder; with any other session id it is refused as a conflict and changes neither the holder nor the expiry, and with an unknown lock id it reports not found.",
 ["inputs","schedules"],"every lock id and session id offered in every reachable state within the bound",
 "Tests try one wrong session id.",
 [LM+"exclusive_lock.go",LM+"exclusive_locker.go"],[("session check",LM+"exclusive_lock.go")],["Heartbeat","Release"])
p("C25","A lock expires after its timeout and not before",
 "A held lock stays held as long as successive heartbeats arrive within its timeout, and is freed once the timeout passes without one, for every timeout and every spacing of heartbeats. The listing shows the holder's timeout and the time left until it passes.",
 ["inputs","schedules"],"arbitrary timeouts and arbitrary heartbeat times, in virtual time",
 "Tests use one short timeout and sleep past it.",
 [LM+"exclusive_lock.go"],[("ticker reset on heartbeat",LM+"exclusive_lock.go")],["ObtainLock","Heartbeat","LocksQuery"])
p("C26","A queued item is in the hands of one consumer at a time and never lost",
 "Every item accepted into a channel is at each moment either waiting, being processed by exactly one consumer, or finished (acknowledged, out of retries, or, where an updateable item is involved, superseded by another item); it is handed out again only after a failure, a timeout or a failed delivery ended its previous processing. An accepted item that is not finished is eventually handed to a consumer that keeps asking.",
 ["schedules","histories","fault_sequences"],"every history within the bound of enqueue, dequeue, delivery failure, acknowledgement and timeout on one channel",
 "Tests check single transitions; duplication or loss needs a sequence with failures in between.",
 [QC+"memory/memory_queue_channel.go",QC+"memory/memory_queue_channel_item.go"],[("Execute / dequeue / failItem",QC+"memory/memory_queue_channel.go")],["Enqueue","Dequeue","ACK"])
p("C27","Channels are first in, first out, and failed items retry as configured",
 "Items that are not updateable are handed out in the order they were enqueued. Such an item whose processing fails is handed out again at the front or back of the channel according to its retry position, with the same data, as many more times as its retry attempts allow, and is then dropped; an updateable item is never handed out more often than that.",
 ["histories","inputs"],"every history within the bound of enqueues, dequeues, failures and successes with arbitrary retry settings",
 "Tests fail one item once; ordering errors need several items and repeated failures.",
 [QC+"memory/memory_queue_channel.go"],[("failItem",QC+"memory/memory_queue_channel.go")],["Enqueue","Dequeue","ACK"])
p("C28","An updateable waiting item is replaced in place, entirely",
 "Enqueuing onto a channel whose most recently enqueued waiting item is updateable replaces that item's data and all its settings, keeping its place and adding no item; otherwise a new item is added at the end. Items already being processed are never altered.",
 ["histories","inputs"],"every history within the bound of enqueues and dequeues with arbitrary item settings",
 "Tests compare only the data of one replaced item.",
 [QC+"memory/memory_queue_channel.go"],[("Enqueue update path",QC+"memory/memory_queue_channel.go")],["Enqueue","Dequeue"])
p("C29","Queue usage reported to the limiter matches the queue",
 "After every operation, the total the channel has reported to the limiter as enqueued equals the number of its unfinished items and the total reported as running equals the number of items being processed, including after failures, retries, replacements, timeouts and undeliverable items; an enqueue the limiter refuses adds nothing. Force-deleting a channel sets both totals to zero. The totals are those of the queue and channel alone, under the queue's name and its kind, whatever keys the channels of any queue have.",
 ["histories","fault_sequences"],"every history within the bound of channel operations with the limiter accepting or refusing at any point",
 "Tests stub the limiter and ignore the amounts on most paths.",
 [QC+"memory/memory_queue_channel.go"],[("limiterUpdateEnqueuedValue / limterUpdateRunningValue",QC+"memory/memory_queue_channel.go")],["calls made on the limiter client"])
p("C30","Acknowledgements and heartbeats act only on the item being processed",
 "An acknowledgement or heartbeat succeeds only if it names an item that is being processed at that moment; otherwise it reports not found and changes nothing. A successful acknowledgement ends the processing of exactly that item, and of several for one item only one succeeds.",
 ["histories","inputs","schedules"],"every item id offered in every reachable channel state within the bound, including items waiting, finished, timed out or never existing",
 "Tests acknowledge processing items and one missing id.",
 [QC+"memory/memory_queue_channel.go",QC+"queue_channels_client_local.go"],[("ACK / Heartbeat",QC+"memory/memory_queue_channel.go")],["ACK","Heartbeat"])
p("C31","A heartbeat monitor times out exactly when it should, at most once",
 "A heartbeat monitor calls its timeout handler at most once and only if a full timeout passes after the start or the last accepted heartbeat without another; it never calls it after a stop succeeded, and of several concurrent stops at most one succeeds. Start, stop and heartbeat calls always return.",
 ["schedules","inputs"],"every interleaving within the preemption bound of start, stop, heartbeat, shutdown and timer, with arbitrary timeouts",
 "Tests sleep around a fixed timeout.",
 ["internal/heartbeater/heartbeater.go"],[("Execute select loop","internal/heartbeater/heartbeater.go")],["Start","Stop","Heartbeat","onTimeout"])
p("C32","Queues and channels keep a faithful life cycle",
 "A queue exists from its creation until its deletion, under a unique name, with the latest item limit it was given; operations on an unknown queue report not found, except that deleting it does nothing. A channel exists exactly while it holds items or until its queue or the channel is deleted, channels of one queue are never visible in another, and deleting a queue removes all its channels. A consumer that waits for an item gets one that arrives in a channel of its queue that matches its query, learns that its queue was deleted, and holds up no other operation meanwhile. Operations that overlap leave a state that some order of them explains, and none of them crashes the service.",
 ["histories","inputs","schedules"],"every history within the bound of queue and channel operations over two queues and two channels, and every schedule within the preemption bound of two overlapping operations",
 "Tests run each operation once on one queue.",
 [QU+"queues_client_local.go",QC+"queue_channels_client_local.go",QU+"memory/memory_queue.go"],[("queue client local",QU+"queues_client_local.go")],["CreateQueue","GetQueue","UpdateQueue","DeleteQueue","Channels"])
p("C33","Each HTTP request gets one response, and bad requests reach no service",
 "Every service endpoint answers each request exactly once, with the status code of the outcome of the operation it performed (success only if the operation succeeded). A request whose body does not decode or validate is answered as an error and never reaches the service behind the endpoint. Whatever sequence of requests with valid bodies reaches a running service, it never crashes nor answers with a server error of its own making, what it shows are valid models, and it leaves no locks behind.",
 ["inputs","fault_sequences","histories"],"every endpoint with every decode/validation outcome and every result of the service behind it; every history within the bound of requests to running services",
 "Handler tests cover some error paths of some endpoints.",
 ["internal/locker/api/v1/handlers/locker_handler.go","internal/limiter/api/v1/handlers/rules_handler.go","internal/limiter/api/v1/handlers/overrides_handler.go","internal/limiter/api/v1/handlers/counters_handler.go","internal/willow/api/v1/handlers/queue_handler.go","internal/willow/api/v1/handlers/channel_handler.go","internal/willow/api/v1/handlers/item_handler.go","pkg/models/api/server.go"],
 [("decode, validate, call, respond","pkg/models/api/server.go")],["http.ResponseWriter"])
p("C34","Clients learn that a lock or item is lost, and release it at most once",
 "A client-side lock or item signals done (a lost callback for the holder) once it was released, the service rejected its heartbeats, or its timeout passed without a successful heartbeat, and not before; that holds also while heartbeat requests get late responses or none. From then on it sends no heartbeats. At most one release of a lock succeeds and is sent to the service; heartbeats and acknowledgements name the lock or item that the client holds, so that the service accepts them, and every call returns. A lock that the service hands out is obtained, also after the service answered that it is restarting, unless its caller gave up waiting; two callers of one client that ask for the same lock share it.",
 ["schedules","fault_sequences"],"every sequence within the bound of heartbeat responses, delays and failures, timer orders and a release at any point",
 "Client tests are partly disabled and sleep around fixed timeouts.",
 ["pkg/clients/locker_client/lock.go","pkg/clients/locker_client/locker_client.go","pkg/clients/willow_client/item.go","pkg/clients/willow_client/willow_client.go"],[("heartbeat goroutine","pkg/clients/locker_client/lock.go")],["Lock.Done","Lock.Release","Item.ACK"])
p("C36","The clients and the services' APIs agree",
 "Every call of the limiter and willow clients reaches the endpoint of the operation it names, with the same queue name, ids, query and model that the caller passed (also when a name has characters that are special in URLs); the caller gets exactly the models that the service answered with, and an error if and only if the service did not perform the operation, carrying the reason that the service gave.",
 ["inputs","fault_sequences"],"every client call with every outcome of the service and arbitrary names, models and error texts within the bound",
 "Tests use fixed names and one outcome at a time, each against a hand-written server.",
 ["pkg/clients/limiter_client/limiter_client.go","pkg/clients/willow_client/willow_client.go","pkg/clients/willow_client/item.go","pkg/clients/http_client.go","internal/limiter/api/v1/handlers","internal/willow/api/v1/handlers"],[("requests and decoded answers","pkg/clients/willow_client/willow_client.go")],["LimiterClient","WillowServiceClient"])
p("C37","Services run with the configuration they are given, or not at all",
 "Each setting of the willow, limiter and locker services is what its environment variable says if that is set, else what its command line flag says, else its documented default; an insecure-http setting in the environment can turn plain HTTP off as well as on. A service starts exactly when its configuration is valid: the log level is debug or info; the port is a number from 0 to 65535; with insecure-http none of the server's CA, key and certificate is given, and without it both key and certificate are; willow's storage type is memory; the locker's default timeout is a duration greater than 0.",
 ["inputs"],"every combination of flags and environment variables of the transport settings, and arbitrary texts within the bound for each other setting",
 "Tests set one variable or flag at a time, to one value.",
 ["internal/config/willow_config.go","internal/config/limiter_config.go","internal/config/locker_config.go"],[("the parsed and validated settings","internal/config/willow_config.go")],["Willow","Limiter","Locker"])
p("C38","Willow, limiter and locker together enforce the limits of queues and rules",
 "With the three services running together, a queue accepts an item exactly when it holds fewer than its limit, whatever was created, updated, enqueued, handed out, acknowledged and deleted before and whatever other queues hold, and the limiter's counters are what the queues hold; a channel that the user has given a limit of its own in willow's rule keeps to that one too. An item is handed out exactly when every rule or override on running items has room for it; an item that waits for a limit is handed out once another is acknowledged or the limit is lifted, also when the rule is deleted while the services look at it. Willow outlives a limiter that has a problem while items wait, hands the items out afterwards, and never asks the limiter over and over again without a pause.",
 ["histories","fault_sequences","inputs"],"every history within the bound of operations on one or two queues, and every kind of rule and override with limits -1 to 1 on running items, with the rule deleted or the limiter failing before any request",
 "Tests stub the limiter in the queue code and the queues in the limiter code; the few end-to-end tests follow one path each.",
 [QC+"memory/memory_queue_channel.go","internal/willow/brokers/queues/memory/memory_queue.go",LI+"counters/counter_client_local.go",LI+"rules"],[("items held and counted",QC+"memory/memory_queue_channel.go")],["Enqueue","DequeueItem","limiter rules"])
p("C39","Connections use TLS exactly as configured; services stop cleanly when told to",
 "The willow, limiter and locker services listen at their configured port, with TLS and the configured certificate unless insecure-http is set; a service whose key, certificate or CA file is missing or unusable does not start and is not reachable, and one that cannot listen, or whose listener breaks, reports it. A service that is told to stop takes no more requests, answers those it has, and then stops without an error. A client can be set up exactly when it has a URL and its certificate files are absent or fit together, and then presents the configured certificate and trusts only the configured CA.",
 ["inputs","schedules","fault_sequences"],"every combination of absent, missing, unusable, mismatched and fitting files for each service and client; every number of requests within the bound in flight when a service is told to stop or its listener breaks",
 "Tests of the servers use one set of valid certificates; stopping with requests in flight is not tested.",
 ["internal/willow/api/willow_tcp.go","internal/limiter/api/limiter_tcp.go","internal/locker/api/locker_server_tcp.go","pkg/clients/client_config.go","pkg/clients/http_client.go"],[("Initialize / Execute","internal/limiter/api/limiter_tcp.go"),("Validate","pkg/clients/client_config.go")],["services","clients"])
p("C40","The three commands start in any order, work together, and stop when interrupted",
 "Each of the locker, limiter and willow commands, started from its command line, waits for the service that it needs: it serves once that one does, whichever is started first, and never before; if the service does not come it gives up and exits with an error, and it can be interrupted while it waits. A command whose configuration is wrong exits with an error and never serves. Running together, the commands hold items up to each queue's limit (0 before one is set), hand them out in order within the limiter's rules, and keep items with workers that live. A command that is interrupted ends without an error, in any order of the three and whatever clients and items it has at the time. A request's X-Request-ID, or the one it is given, is passed on with each request the services make for it.",
 ["histories","schedules","inputs"],"every order of starting and stopping the commands with pauses between, every moment and outcome of waiting, each queue limit and limit on running items within the bound",
 "The main functions have no unit tests; the integration tests start the commands in one order and follow single paths.",
 ["cmd/willow/main.go","cmd/limiter/main.go","cmd/locker/main.go","internal/willow/api/willow_tcp.go","internal/limiter/api/limiter_tcp.go","internal/locker/api/locker_server_tcp.go","pkg/clients/http_request.go"],[("main","cmd/willow/main.go"),("main","cmd/limiter/main.go"),("main","cmd/locker/main.go")],["the commands"])
p("C35","Concurrent increments together respect the limit",
 "When several clients increment counters concurrently through a working lock service, the increments accepted for a group never exceed its limit, and all the calls return. An increment that cannot obtain its locks, or loses one while it obtains the others, is refused, counts nothing and keeps no lock.",
 ["schedules","inputs"],"every interleaving within the preemption bound of two concurrent increments with overlapping key-values",
 "Limit overshoot needs both increments to pass the check before either is stored.",
 [LI+"counters/counter_client_local.go"],[("per-key locks",LI+"counters/counter_client_local.go")],["IncrementCounters"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
