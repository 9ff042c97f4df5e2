import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SRV="pkg/kmeans/rpc/server.go"; UT="pkg/kmeans/rpc/serverutils.go"; CL="pkg/kmeans/rpc/client.go"; RPC="pkg/kmeans/rpc/rpc.go"
CM="pkg/kmeans/centroidmanager/cmanager.go"; CE="pkg/kmeans/centroid/centroid.go"; DP="pkg/kmeans/common/datapoint.go"
PUT="core/dps/putdps.go"; GET="core/dps/getdps.go"; NODES="core/nodes/nodes.go"; VECS="core/nodes/vecs.go"
H="core/api/handler.go"; API="core/api/api.go"; CONV="core/api/conv.go"; ELT="core/eventloop/eltask.go"; ELU="core/eventloop/eltaskutils.go"; ELC="core/eventloop/cfg.go"; EL="core/eventloop/el.go"; SVC="cmd/service/service.go"; CFG="cfg/cfg.go"; KNN="pkg/searchutils/knn.go"; ARB="pkg/arbiter/arbiter.go"
TAB=("namespace table","the namespaces of a node and their partitions, one lock per namespace",UT)
p("C01","An acknowledged datapoint is stored exactly once","When a put is acknowledged (library, remote request or HTTP), and no fault hits the nodes involved, the datapoint is stored on exactly one node, exactly once, until it is drained or expires; this includes the first puts into a namespace and puts concurrent with any maintenance or redistribution. A put that is refused stores nothing.",
 ["schedules","histories","inputs"],"all interleavings of concurrent puts, queries, drains, maintenance requests and maintenance loops on 1 to 4 nodes, all routes of putting",
 "The tests put sequentially, into namespaces that already exist or that one caller creates; a put lost to a concurrent first use of the namespace, a split, a merge or a steal needs one particular interleaving.",
 [SRV,UT,CM,CE,PUT,H,SVC],[("the table lock and the lock per namespace",UT),("add request and first use of a namespace",SRV),("put routes to one node and stops at the first that took it",PUT),("split and merge move datapoints under the namespace lock",CM)],[TAB],["answers to put requests","contents of every node after quiescence"])
p("C02","Redistribution and maintenance never lose a datapoint","Whatever maintenance and redistribution requests run (splitting, merging, internal, fast and accurate redistribution, stealing, load balancing), and whatever connections fail, time out, or break before or after a request is carried out, every acknowledged datapoint that was neither drained nor expired is still on some node of the cluster. Lost acknowledgements may lead to bounded duplicates, but never to datapoints nobody put.",
 ["fault_sequences","schedules","histories"],"all sequences of refused, timed out, cut and delayed connections, partitions and stalled nodes during redistribution between 1 to 4 nodes",
 "The tests run redistribution between healthy nodes; a loss needs a connection to fail at one of the steps between taking datapoints out and storing them elsewhere.",
 [SRV,UT,CL,CM,ELT],[("datapoints that could not be sent are put back",SRV),("steal transfers partition by partition",SRV),("load balancing steals from fuller nodes",ELT)],[TAB],["contents of every node after quiescence"])
p("C03","A drained datapoint is handed out exactly once","Datapoints taken out of the system by draining queries, of any form and by any number of concurrent callers, are handed to exactly one caller each and are then on no node; a non-draining query removes nothing; draining asks for n points and never takes more than n.",
 ["schedules","histories"],"all interleavings of draining and plain queries, puts, maintenance and redistribution by up to 4 clients on 1 to 4 nodes",
 "The tests drain with one caller. Handing a point to two callers, or leaving a copy behind, needs two drains or a drain and a redistribution to overlap.",
 [SRV,CM,CE,GET,H],[("draining under the namespace lock",SRV),("removing a datapoint from its partition",CE),("asking node after node for the rest",GET)],[TAB],["answers to queries","contents of every node after quiescence"])
p("C04","An expired datapoint is never served or accepted","Once a datapoint's expiry has passed on the clock of the node that serves it, no query, drain or census returns it, and a put of an already expired datapoint is refused; a datapoint without expiry, or with one still ahead, is unaffected. This holds whichever clock a node has, also when it jumps, and whatever time zone the expiry is written in.",
 ["histories","fault_sequences","inputs"],"all expiry dates relative to requests, clock offsets and jumps per node, interleaved with maintenance and redistribution",
 "The tests use expiries far from the moment of the request, on one clock; expiry between two steps of one request and clocks that disagree are not reachable with real time.",
 [DP,CE,CM,SRV,CONV],[("expiry test of a datapoint",DP),("adding refuses expired datapoints",CE),("queries skip expired datapoints",CE)],None,["answers to queries and puts"])
p("C05","Expired datapoints are reclaimed by the maintenance loop","With the maintenance loop running, an expired datapoint disappears from the node's memory within a bounded number of rounds after its expiry, and partitions left empty are removed where trimming is enabled. Datapoints that have not expired stay.",
 ["histories","configurations"],"all task periods, loop intervals, clock offsets and expiry dates, while puts, drains and redistribution run",
 "The tests call the expiry and trimming tasks directly, once; that the loop gets to every namespace within a bound depends on periods, time and concurrency.",
 [ELT,EL,ELC,CM,CE],[("expiry task for each namespace",ELT),("trimming task",ELT),("removing expired datapoints",CE)],None,["metadata and counts of a node"])
p("C06","Namespaces are isolated","An operation in one namespace never returns, changes, moves or removes datapoints of another, whatever the names are, and datapoints are never found in a namespace they were not put in. Reading, draining or maintaining a namespace that does not exist does not create it, nor does a put that is refused.",
 ["histories","schedules","inputs"],"all interleavings of operations on 2 to 4 namespaces, with unusual names, on 1 to 4 nodes with redistribution",
 "The tests use one or two plain names, one at a time, on single nodes.",
 [UT,SRV,RPC,ELT,H],[("slots by namespace",UT),("maintenance iterates over namespaces",ELT)],[TAB],["answers to queries","namespace lists and contents of every node"])
p("C07","What comes back is bit for bit what was put","A datapoint returned by any route (query, drain, partition transfer, HTTP) has exactly the vector, payload and expiry it was put with, after any number of splits, merges, redistributions and transfers; the caller changing its own copy afterwards changes nothing.",
 ["inputs","histories","schedules"],"all vectors (also denormal, huge and negative zero components), payloads (empty, binary, large) and expiries, over all routes, fragmented in any way on the network",
 "The tests compare a few simple vectors over one route.",
 [DP,CE,CM,CONV,H,CL,SRV],[("conversion between HTTP and internal form",CONV),("datapoints are moved, not recomputed",CM),("gob transport",RPC)],None,["answers to queries"])
p("C08","Operations on one node are linearizable","Concurrent puts, draining and plain queries, counts and namespace lists of one node behave as if each took effect at one instant between its request and its answer.",
 ["schedules","histories"],"all interleavings, at statement granularity, of the requests of up to 4 concurrent clients on one node",
 "The tests have one caller at a time; a non-atomic read or update shows only under particular interleavings.",
 [SRV,UT,CM,CE],[("lock per namespace",UT),("table lock",UT)],[TAB],["requests and answers with their order in time"])
p("C09","A query finds min(n, stored) datapoints","A query for n datapoints in settled data returns exactly min(n, number of unexpired datapoints stored), all distinct and really stored: on one node, however the datapoints are spread over partitions (also empty ones), and over a whole cluster by the library and the HTTP interface, in fast and accurate mode, with loops running.",
 ["inputs","histories","schedules","configurations"],"all distributions over partitions and nodes that puts, drains, expiry, splits, merges and redistribution lead to, and all n",
 "The tests query a few hand-made layouts; which partitions get empty, and in which order they are visited, depends on history.",
 [CM,CE,GET,H,SRV,KNN],[("search partition after partition",CM),("ask node after node until n are found",GET)],None,["answers to queries"])
p("C10","Answers are the nearest datapoints, best first","While a node's namespace is one partition, a query for n returns the n datapoints most similar to the query by cosine similarity, in descending order of similarity; an ordered drain takes the datapoints least similar to the mean of what is stored.",
 ["inputs","histories"],"all datapoints, queries and n on one partition, after puts, drains, expiry and merges",
 "The tests check a few vectors; the order after removals and the stored mean depend on the history.",
 [CE,CM,KNN,"pkg/mathutils/distance.go"],[("k nearest search",KNN),("ordered drain",CE)],None,["answers to queries"])
p("C11","Datapoints and queries go to the best-fitting node and partition","When nothing fails, a put goes to the reachable node whose mean (fast) or nearest partition (accurate) is most similar to the datapoint, and within a node to the most similar partition; redistribution sends each datapoint to its best candidate and moves as many as asked; queries visit nodes in order of similarity; a node that takes partitions from another takes those closest to its own mean first. Nodes that hold nothing or cannot be reached do not get in the way.",
 ["inputs","configurations","histories","fault_sequences"],"all distributions over 1 to 5 nodes, some unreachable or empty, all candidate lists, both modes, all routes",
 "The tests check two or three nodes with hand-made vectors, all reachable.",
 [PUT,GET,VECS,NODES,SRV,CM],[("sorting nodes by similarity",VECS),("choosing the partition",CM),("fast and accurate redistribution",SRV)],None,["which node and partition holds a datapoint after a put or redistribution"])
p("C12","A crash loses only the crashed node's data, and it can rejoin","When a node crashes at any moment, datapoints acknowledged by other nodes and not in transfer to or from it stay stored and served, all other nodes keep serving, and the crashed node can start again at the same address and takes part again.",
 ["crash_points","schedules","fault_sequences"],"all crash moments (by time, and before, during and after any request), with restarts after any delay, during client operations and maintenance on 2 to 4 nodes",
 "No test crashes a node during operation.",
 [SRV,CL,ELT,PUT,GET,H],[("clients of other nodes report errors instead of failing",CL),("put tries the next node",PUT),("loops skip unreachable nodes",ELT)],None,["contents and answers of the other nodes"])
p("C13","A put succeeds when a node can take it, and reports the truth","A put through the library or HTTP succeeds whenever at least one known node is reachable and able to take it, however the other nodes fail, and an HTTP put answers success only if the datapoint was stored and an error only if it cannot be known to be.",
 ["fault_sequences","configurations"],"all combinations of nodes that are down, refuse, time out, are cut off or fail during a put",
 "The tests put while all nodes are up, or one is missing from the start.",
 [PUT,H,VECS,NODES,CL],[("trying nodes in turn until one accepts",PUT),("status of a put",H)],None,["answers to put requests"])
p("C14","Maintenance makes progress again once faults stop","After any sequence of crashes, restarts, partitions, cut or refused connections, stalls and clock jumps has ended, every running maintenance loop completes further rounds within a bounded time and every node serves requests; no deadlock or endless retry remains.",
 ["fault_sequences","schedules","crash_points"],"all fault sequences as above, on 2 to 4 nodes with loops, during client operations",
 "The tests run loops without faults, for a few rounds.",
 [ELT,ELU,EL,CL,SRV,UT],[("each task ends when a remote fails",ELT),("locks are released on all paths",UT)],None,["requests made by the loops","answers to requests"])
p("C15","Each maintenance task runs at its configured cadence","Each maintenance task runs on every k-th round for its configured k, never runs when k is above the documented maximum, rounds follow each other at the configured intervals, and a stopped loop stops after the task it is in.",
 ["configurations","schedules"],"all combinations of task periods (also 0, negative, over the maximum), intervals and stop moments, up to thousands of rounds",
 "The tests call tasks one by one, and the loop for a moment; real time forbids more.",
 [EL,ELT,ELC],[("round counter and skip values",ELC),("loop and stop signal",EL)],None,["requests made by the loops"])
p("C16","Load balancing evens out nodes and settles","With load balancing on, nodes far below the mean fill up from fuller ones until the gap is small, a taking node stops near the mean (overshooting by less than one partition), a giving node is not drained far below the mean, balanced nodes are left alone, a node within a fifth of the mean takes nothing and one below it gives nothing while only one node takes, and the movement comes to an end; no datapoint is lost on the way.",
 ["configurations","schedules","histories"],"all starting distributions over 2 to 4 nodes, namespaces, partition sizes and periods, with all nodes balancing concurrently",
 "The tests run the task once on two nodes; settling is a property of many rounds of several concurrent loops.",
 [ELT,ELU,SRV],[("amount to take from the difference to the mean",ELT),("steal",SRV)],None,["counts of the nodes over time","transfer requests"])
p("C17","Stored means are the means of what is stored","The mean vector of each partition is the mean of the unexpired datapoints in it, and the one a node reports for a namespace the mean of those of its partitions (to rounding), after any history of puts, drains, expiry, splits, merges, trims and transfers; it is never undefined while there are datapoints.",
 ["histories","schedules"],"all histories of puts, drains, maintenance and transfers",
 "The tests check means after one or two additions; drift and stale means need longer histories.",
 [CM,CE,"pkg/mathutils/vectools.go"],[("incremental mean on add and removal",CE),("mean over partitions",CM)],[("mean vectors","used to route puts and queries",CE)],["vector requests"])
p("C18","Interrupted or malformed HTTP requests have no effect","An HTTP request that is malformed, or breaks off before its end, stores nothing and removes nothing, is answered by an error if it can be answered, and leaves the node serving; a complete request has its effect however it is fragmented in transit.",
 ["fault_sequences","inputs"],"all cut points of put and query requests, malformed bodies, methods and headers, slow and fragmented senders",
 "The tests send complete well-formed requests.",
 [H,API,CONV],[("decoding and refusing requests",H),("server timeouts",API)],None,["HTTP status","contents after quiescence"])
p("C19","Partitions are split and merged to their configured sizes","Splitting divides exactly the partitions whose size lies in the given range into two halves, merging lets each partition in its range take in its nearest other partitions whole, only until it is out of the range, and leaves the rest alone; a partition that a put brings to, or finds at or above, the split threshold is split; no request changes what is stored, and repeated maintenance leaves sizes within range.",
 ["inputs","histories","configurations"],"all sizes, ranges and thresholds, after all histories, with loops",
 "The tests split and merge one or two hand-made layouts.",
 [CM,CE,SRV],[("split and merge by size range",CM),("split on add at the threshold",CM)],None,["partitions of a node"])
p("C20","No request, byte stream or socket failure takes a node down","A node keeps serving all its namespaces, and no caller is taken down, whatever requests it is sent (negative or zero amounts, empty, mismatched or missing vectors, unknown namespaces, unreachable or malformed addresses), whatever bytes arrive on its port, and however often accepting a connection fails temporarily.",
 ["inputs","fault_sequences","histories"],"all sequences of odd requests, garbage streams and accept failures, interleaved with regular use",
 "The tests send valid requests; a panic in one handler ends the process and every namespace in it.",
 [SRV,UT,RPC,CM,CE,KNN,CL],[("argument checks",SRV),("accept loop",RPC)],None,["the node process stays alive","answers to probes"])
p("C21","No data races","No two goroutines of a node access the same memory without synchronisation, one of them writing, in any use of the service: requests, HTTP interface, maintenance loop, starting and stopping.",
 ["schedules","histories"],"all interleavings of concurrent requests, loops and stop requests on 1 to 4 nodes",
 "The existing tests run mostly sequentially and without race detection over varied schedules.",
 [SRV,UT,RPC,CM,CE,EL,ELT,"core/eventloop/log.go",API],[("locks per namespace and table lock",UT),("atomic flags",EL)],None,["race detector"])
p("C22","A stopped node frees its address and can be started again","Stopping a node makes it refuse connections from then on and frees its address, so that it can be started again at once at the same address and serves again; stopping ends no other node, may be repeated, and does nothing to one that was started since.",
 ["schedules","histories"],"all interleavings of stopping and starting with concurrent requests and connections",
 "The tests stop each node once, at the end.",
 [RPC],[("stop function and accept loop",RPC)],None,["answers to requests before, during and after"])
p("C23","Transfer requests report what they did","A steal reports exactly the number of datapoints the thief gained, takes at least the number asked for if the source has them and overshoots by less than one partition, and reports failure when the source cannot be reached or lacks the namespace; redistribution moves at most the number asked for.",
 ["inputs","histories","fault_sequences"],"all amounts, layouts and histories on 2 to 3 nodes, with failing connections",
 "The tests check one or two transfers of hand-made layouts.",
 [SRV,CL,CM],[("counting transferred datapoints",SRV)],None,["answers to transfer requests","contents before and after"])
p("C24","Members agree on the arbiter","After an election among reachable members succeeds, every member asked before it lapses names the same arbiter, an arbiter is always one of the members a node was told of, no member refuses an election because of members it was told of, a lone member elects itself, and the summaries over the members' answers (the error of one that failed, if any; whether all statuses are the same) are true.",
 ["schedules","histories"],"all elections, repeated, with lapses, on 1 to 4 members, some of them crashed or not eligible",
 "The tests run one election and look once.",
 [ARB],[("session with the members",ARB)],None,["answers to arbiter requests"])
p("C25","Requests leave nothing behind","Once requests have been answered or have failed, for whatever reason, and the maintenance loops are stopped, nothing of them remains: no connection is kept open by the side that opened it, and a node runs no more goroutines than before the first request (a stopped node none at all); so nodes, loops and library callers do not wear out with use.",
 ["histories","fault_sequences","schedules"],"all sequences of requests by all routes, also to nodes that are absent, refuse, time out, break off or crash, elections, loops with faults, and stop and start cycles",
 "The tests make a few successful requests each and end; what a failed request leaves behind shows only when it is counted.",
 [CL,SRV,RPC,VECS,ELU,ELT,H,PUT,GET],[("each request has a connection of its own, closed on every path",CL),("fetching from several nodes concurrently",VECS),("lengths of all nodes are fetched concurrently",ELU)],None,["open connections and goroutines at rest"])
p("C26","What nodes and loops report of themselves is true","The namespaces and the numbers of datapoints and partitions that a node reports on request, that the maintenance loop passes to its logger, and that the default logger prints are what the nodes hold at that time: of the local node only if so configured, otherwise of every configured node; for a node that cannot be reached nothing is reported, never another node's or old figures.",
 ["histories","configurations","fault_sequences"],"all histories of puts, drains, maintenance and transfers on 1 to 4 nodes, loops with any metadata period, scope and address list, nodes crashed or failing to answer",
 "The tests look at metadata once, of one or two nodes that are up.",
 [SRV,UT,CM,ELT,"core/eventloop/log.go"],[("metadata request",SRV),("metadata task",ELT),("default logger",'core/eventloop/log.go')],None,["answers to metadata requests","calls of the logger","printed lines"])
p("C27","Requests that fail are reported as failed","A request to a node reports an error whenever it could not be answered (the node is down or stopped, refuses or times out, the connection breaks before the whole answer is there) or names a namespace the node does not have, whether or not the same client was used before, and returns nothing made up along with it; it reports no error when nothing failed, and a put of a valid datapoint to a node that serves is then acknowledged.",
 ["fault_sequences","schedules","histories"],"all 19 kinds of requests, to nodes that are crashed, stopped, restarted, refuse, time out, or break off at any byte of request or answer, by new and kept clients, with and without a place for the error",
 "The tests make requests that succeed; the failure paths of the client are not tested at all.",
 [CL,SRV,RPC],[("the client passes on dial and call errors",CL),("error for unknown namespaces",SRV)],None,["errors and values returned to callers of the node client"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
man={"version":1,"setup_cmd":"./build.sh && ./build.sh race",
"hooks":{"guard":"none: no hooks in /repo; yield points and the simulated net, time and scheduler are put in by a build overlay (go build -overlay) made from /repo's working tree","enable":"/verif/build.sh writes /verif/.build/overlay.json and builds the worker with -overlay and -tags faketime","source_commits":[]},
"checks":[],"not_applicable":[],
"notes":"Pure functions (vector arithmetic, distance measures, command line parsing) have no schedule, time, I/O or second party for a property to depend on and are not listed; they run as part of every simulated execution. See DESIGN.md."}
tech={"C08":"deterministic simulation, seeded schedules; linearizability check of the recorded history","C21":"deterministic simulation with the race detector over seeded schedules"}
for x in P:
    i=x["id"]
    man["checks"].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
     "technique":tech.get(i,"deterministic simulation with fault injection: seeded search over schedules, workloads and faults, checked against a reference model"),
     "level":"exploration",
     "level_note":"Seeded search: no violation in the executions run, each exactly repeatable. Real code of the repository; scheduler, clock, network, randomness and process crashes are simulated. Trusts the oracles in sim/world and the TCP model in sim/simnet."})
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
