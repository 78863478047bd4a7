#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run to regenerate both)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, tech=None, note=None,
         level="exploration", claimed=True, reason=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, state=state or [], tech=tech, note=note, level=level,
                  claimed=claimed, reason=reason))

MU = "pkg/mathutils/"; SU = "pkg/searchutils/knn.go"; CE = "pkg/kmeans/centroid/centroid.go"
CM = "pkg/kmeans/centroidmanager/cmanager.go"; RS = "pkg/kmeans/rpc/server.go"; RC = "pkg/kmeans/rpc/client.go"
RR = "pkg/kmeans/rpc/rpc.go"; RU = "pkg/kmeans/rpc/serverutils.go"; DP = "pkg/kmeans/common/datapoint.go"
ND = "core/nodes/nodes.go"; NV = "core/nodes/vecs.go"; PD = "core/dps/putdps.go"; GD = "core/dps/getdps.go"
DD = "core/dps/dps.go"; AP = "core/api/api.go"; AH = "core/api/handler.go"; AC = "core/api/conv.go"
EL = "core/eventloop/el.go"; ET = "core/eventloop/eltask.go"; EU = "core/eventloop/eltaskutils.go"; EC = "core/eventloop/cfg.go"
AR = "pkg/arbiter/arbiter.go"; SV = "cmd/service/service.go"; CF = "cfg/cfg.go"

TRUST = " Trusts the Go toolchain, rapid, and the independent reference code in the harness; explores only the generated inputs (see evidence)."

prop("S01", "Nearest/furthest search returns exactly the k best candidates, best first",
 "For any query vector, candidate sequence and k, each search (nearest or furthest, Euclidean or cosine, or a caller-supplied measure) returns distinct positions into the candidate sequence: exactly min(k, number of candidates of the query's dimension) of them (also those with an infinite score, while NaN cannot be ranked), ordered best first, and no candidate left out scores strictly better than one returned. Candidates of another dimension are never returned and do not shift the positions of the others; k <= 0 returns nothing.",
 ["inputs"], "all query vectors, candidate pools (any order, with duplicates, ties, zero vectors and wrong-dimension entries) and all k, including k larger than the pool",
 "the tests search three fixed small pools with one k each; order-sensitive, duplicate, mixed-dimension and k>pool cases are never reached",
 [SU], [{"name":"KNNBrute with bubble insertion","where":SU}], ["KNNBrute, KNNCos, KFNCos, KNNEuc, KFNEuc return values"],
 tech="property-based testing against a sort-everything reference search",
 note="Differential against a full-sort oracle on generated pools up to 400 vectors; ties within 1e-9 relative score are accepted in any order."+TRUST)

prop("S02", "Euclidean distance and cosine similarity obey their definitions",
 "For any two vectors of equal dimension (whose squared norms a float64 can hold) the Euclidean distance is the square root of the sum of squared component differences, and the cosine similarity is the normalised dot product, 0 when either vector is zero and never NaN or outside [-1,1] beyond rounding. Both are symmetric and report an error exactly when the dimensions differ.",
 ["inputs"], "all pairs of finite vectors of any dimension whose squared norms are representable, including zero, equal, opposite, orthogonal and mismatched ones",
 "the distance functions have no tests of their own; they are only used indirectly on a handful of two-dimensional vectors whose order Manhattan and Euclidean distance agree on",
 [MU+"distance.go"], [{"name":"EuclideanDistance / CosineSimilarity","where":MU+"distance.go"}], ["EuclideanDistance, CosineSimilarity"],
 tech="property-based testing against high-precision big.Float definitions plus metamorphic laws",
 note="Compared with a 200-bit reference and with symmetry, scaling, triangle and translation laws."+TRUST)

prop("S03", "Vector helpers compute component-wise results and never touch inputs",
 "Adding, subtracting, scaling, dividing, averaging and comparing vectors give the component-wise mathematical result as a new vector which shares no memory with its inputs, and leave every input unchanged. Addition, subtraction and averaging signal failure exactly when dimensions differ (or there is nothing to average), and equality/membership hold exactly when all components are equal.",
 ["inputs"], "all finite vectors and scalars, all sequences of vectors to average including empty and mixed-dimension ones",
 "mathutils has no tests at all",
 [MU+"vectools.go"], [{"name":"VecMean, VecAdd, VecSub, VecMulScalar, VecDivScalar, VecEq, VecIn, Vec","where":MU+"vectools.go"}], ["return values; inputs before/after; mutation of results"],
 tech="property-based testing with component-wise reference and aliasing/mutation checks",
 note="Exact component comparison (1e-12 relative for means), mutation of results must not show in inputs and vice versa."+TRUST)

prop("C01", "A cluster's vector is always the mean of the points it holds",
 "After any sequence of operations on a cluster (adding, draining ordered or unordered, lookup with removal, expiry, trimming, redistribution), while it holds at least one point, its vector equals the mean of the vectors of the points it holds. A cluster which becomes empty keeps a finite vector of the same dimension.",
 ["histories","inputs"], "all sequences of cluster operations with all point vectors and removal counts, in every order, including emptying and refilling and points expiring in between",
 "tests check the vector after one or two hand-picked adds/removals; nothing checks it after trimming, expiry inside lookups, or long mixed histories",
 [CE], [{"name":"incremental mean in addDataPoint/rmDataPoint, MoveVector","where":CE}], ["Vec() against the DataPoints held, after every operation"],
 state=[{"name":"cluster vector","meaning":"running mean of held points","where":CE}],
 tech="stateful (model-based) property testing; mean recomputed after every operation",
 note="Histories up to ~60 operations under a fake clock; relative tolerance 1e-6."+TRUST)

prop("C02", "A cluster never loses, duplicates or alters a point",
 "Over any sequence of cluster operations, every accepted and unexpired point is at all times in exactly one place: still in the cluster, handed out by exactly one draining call, or given to exactly one receiver, with its vector, payload and expiry unchanged. A call that does not drain changes nothing, a call that drains n returns min(n, unexpired points held) and removes exactly what it returns, and a point is refused (and then has no effect) exactly when its dimension differs from the cluster's or it is expired.",
 ["histories","inputs"], "all sequences of add, drain, lookup, redistribution, expiry and trim operations with any counts including zero and more than is held",
 "tests drain once from clusters of about three points and count them; identity, content and longer histories are not checked",
 [CE], [{"name":"addDataPoint/rmDataPoint, Drain*, KNNLookup, DistributeDataPoints, MemTrim","where":CE}], ["returned points and DataPoints held, keyed by a unique payload"],
 tech="stateful (model-based) property testing against a multiset model",
 note="Points carry unique payload ids; contents compared after every operation."+TRUST)

prop("C03", "Cluster lookup and ordered drain pick exactly the right points",
 "A lookup of k in a cluster returns min(k, unexpired points held) points, nearest to the query first, and an ordered drain of n removes and returns the min(n, held) points least similar to the cluster's vector, furthest first; no point left out would have been a strictly better pick. With removal requested exactly the returned points leave the cluster, otherwise none does.",
 ["inputs","histories"], "all cluster contents (duplicates, ties, expired points in any position), all queries and all k, n, for both cosine and Euclidean configuration",
 "tests use three fixed points and k=1 or 2",
 [CE, SU], [{"name":"KNNLookup, DrainOrdered, dataPointVecGenerator","where":CE}], ["returned points vs. full-sort reference over the held points"],
 tech="property-based testing against a full-sort reference",
 note="Ties within 1e-9 accepted."+TRUST)

prop("C04", "Cluster redistribution sends each worst-fit point to its best-fit receiver",
 "Redistributing n points from a cluster takes the n points least similar to the cluster's vector and offers each to the receiver whose vector is nearest to it at that moment, where it ends up unless that receiver refuses it, in which case it is back in the cluster. With no receivers nothing happens, and no other point moves.",
 ["inputs","histories"], "all cluster contents, all receiver sets (including the cluster itself, receivers that refuse, receivers of other dimensions) and all n",
 "the only test moves one point between two clusters",
 [CE], [{"name":"DistributeDataPoints","where":CE}], ["which receiver is offered which point; contents of cluster and receivers"],
 tech="property-based testing with recording receivers and a simulation oracle",
 note="Decisions within 1e-9 of a tie are not judged."+TRUST)

prop("X01", "Expired points are refused and never returned; live points never expire early",
 "A point whose expiry time has passed is refused by every add and is never handed out by any drain, lookup, redistribution or network call, however it came to be expired while stored. A point with expiry disabled or whose expiry time has not passed is never refused, dropped or hidden because of its expiry time.",
 ["inputs","histories","schedules"], "all expiry times including exactly now, one nanosecond either side and the zero time, all mixes of expired and live points in any position, at cluster, node and network level",
 "tests sleep around one or two points; boundary instants, mixed positions, redistribution and network retrieval are not covered",
 [DP, CE, CM, RS], [{"name":"DataPoint.Expired and its callers","where":DP},{"name":"dataPointVecGenerator skip, DrainUnordered skip, AddDataPoint refusal","where":CE}], ["returned points and refusals under a controlled clock"],
 tech="stateful property testing under a fake clock (testing/synctest) plus aged points over RPC",
 note="Local levels use an exact fake clock; network level ages stored points by hours so wall time cannot matter."+TRUST)

prop("X02", "Expiring and trimming remove exactly the dead data",
 "Expiring a cluster or node removes all expired points and only those. Trimming does the same and additionally leaves every cluster with capacity equal to its number of points and, on a node, drops all clusters that end up empty and no others, keeping the order of the rest.",
 ["histories","inputs"], "all cluster and node contents with any mix of live and expired points, including all expired, none, and already empty clusters, before and after any history",
 "tests expire one point and trim one manager with two clusters",
 [CE, CM], [{"name":"Expire, MemTrim","where":CE},{"name":"Expire, MemTrim","where":CM}], ["contents, capacities and cluster list before/after"],
 tech="stateful property testing under a fake clock with exact before/after oracle",
 note="Exact on contents and capacity."+TRUST)

prop("M01", "A node's vector is always the mean of its clusters' vectors",
 "After any sequence of node operations (adding with automatic splits, draining, lookup, expiry, trimming, splitting, merging, taking clusters out, redistribution), while the node has at least one cluster its vector equals the mean of its clusters' vectors. It is never NaN or infinite for input whose sums are finite, also when the last cluster is taken out.",
 ["histories","inputs"], "all operation sequences over all finite point vectors and thresholds, in every order",
 "tests check the vector after single operations on two clusters; splits, trims, merges and last-cluster removal are not checked",
 [CM], [{"name":"prepVecUpdate, MoveVector and the per-operation adjustments","where":CM}], ["Vec() against mean of Centroids' Vec() after every operation"],
 state=[{"name":"node vector","meaning":"mean of cluster vectors, used to route data between nodes","where":CM}],
 tech="stateful (model-based) property testing; mean recomputed after every operation",
 note="Relative tolerance 1e-6; histories up to ~60 operations."+TRUST)

prop("M02", "A node never loses, duplicates or alters a point",
 "Over any sequence of node operations, including automatic and requested splits, merges, trims and redistribution inside the node or to other receivers, every accepted unexpired point is at all times in exactly one place: one cluster of the node, one receiver, or the result of exactly one removing call, with its content unchanged. The reported number of points always equals the number actually held.",
 ["histories","inputs"], "all sequences of node operations with any arguments over any stored data",
 "tests count points after single operations on a few points",
 [CM, CE], [{"name":"AddDataPoint, Drain*, KNNLookup, NearestCentroids, Split/Merge, Distribute*","where":CM}], ["points held per cluster and points returned, by unique payload; LenDP"],
 tech="stateful (model-based) property testing against a multiset model",
 note="Points carry unique payload ids; contents compared after every operation."+TRUST)

prop("M03", "A new point goes to the most similar cluster, or is refused without effect",
 "A point added to a node that has clusters joins the cluster whose vector is nearest to it under the configured measure (or the cluster just split off that one); on a node without clusters it starts one. It is refused exactly when it is expired or no cluster has its dimension, and a refusal changes nothing.",
 ["inputs","histories"], "all node states and all points, including ties, zero vectors, wrong dimensions and expired points",
 "tests add to one or two well separated clusters",
 [CM], [{"name":"AddDataPoint","where":CM}], ["which cluster holds the new point; full state on refusal"],
 tech="stateful property testing with nearest-cluster oracle",
 note="Near-ties (1e-9) accept either cluster."+TRUST)

prop("M04", "Clusters that reach the size threshold are split in half on add",
 "With a split threshold of two or more, an add that brings a cluster to or above the threshold splits off exactly one new cluster holding threshold/2 (rounded down) of its points, any other add leaves the number of clusters unchanged, and so under adds alone no cluster ever holds threshold points or more. A threshold of one or less disables splitting.",
 ["histories","configurations"], "all thresholds and all add histories (also interleaved with removals, merges and trims), for all point distributions",
 "one test splits one cluster once with one threshold",
 [CM], [{"name":"AddDataPoint / splitCentroid","where":CM}], ["cluster sizes after every add"],
 tech="stateful property testing with exact size model",
 note="Exact on sizes."+TRUST)

prop("M05", "Requested splits halve exactly the chosen clusters",
 "Splitting by a predicate (or over the network by an exclusive size range) replaces each chosen cluster of m >= 2 points by itself and one new cluster with m/2 (rounded down) of its points, and leaves all other clusters untouched. The predicate is judged on the clusters as they were before the call.",
 ["inputs","histories"], "all node states and all predicates/size ranges, including ranges that are empty, inverted or exactly touch a cluster's size",
 "one local and one network test with one cluster above a limit",
 [CM, RS], [{"name":"SplitCentroids","where":CM},{"name":"SplitCentroids range predicate","where":RS}], ["clusters before/after"],
 tech="property-based testing with exact before/after oracle, local and over RPC",
 note="Exact on membership and sizes."+TRUST)

prop("M06", "Requested merges absorb nearest clusters until none qualifies",
 "Merging by a predicate (or over the network by an exclusive size range) repeatedly lets a qualifying cluster absorb its nearest remaining clusters, whole, until it no longer qualifies; clusters are only ever combined whole. Afterwards either no cluster qualifies or a single cluster remains, absorbed clusters are gone, and clusters that neither qualified nor were absorbed are untouched.",
 ["inputs","histories"], "all node states (any number and sizes of clusters, empty ones, ties) and all predicates/size ranges",
 "tests merge two or three clusters with one predicate",
 [CM, RS], [{"name":"MergeCentroids","where":CM},{"name":"MergeCentroids range predicate","where":RS}], ["partition of points into clusters before/after"],
 tech="property-based testing with partition oracle and reference simulation",
 note="The exact absorption order is judged only when no similarity tie (1e-9) is involved."+TRUST)

prop("M07", "Node drains return at most n points, evenly shared between clusters",
 "Draining n from a node removes and returns exactly min(n, points held) when nothing is expired (n <= 0 drains nothing), and the numbers taken from any two clusters differ by at most one unless the smaller one was exhausted. An ordered drain takes from each cluster exactly its share of points least similar to that cluster's vector.",
 ["inputs","histories"], "all node states and all n, including 0, negative and far more than is held",
 "tests drain one fixed n from two clusters",
 [CM], [{"name":"centroidDataPointPortions, DrainUnordered, DrainOrdered","where":CM}], ["returned points and per-cluster sizes before/after"],
 tech="property-based testing with exact share oracle",
 note="Exact on counts; membership judged up to 1e-9 ties."+TRUST)

prop("M08", "Node lookup returns min(k, live points), searching nearest clusters first",
 "A lookup of k on a node returns exactly min(k, unexpired points of the query's dimension held), taking clusters in order of similarity to the query and within each the nearest points first, and never the same point twice. With removal requested exactly the returned points leave the node; otherwise nothing unexpired does.",
 ["inputs","histories"], "all node states (more clusters than k, empty clusters, expired points), all queries and all k",
 "tests look up in two clusters with k small; empty or small nearest clusters and k above a cluster's size are hardly reached",
 [CM, CE], [{"name":"KNNLookup","where":CM}], ["returned points in order; state before/after"],
 tech="property-based testing with reference lookup",
 note="Order judged up to 1e-9 ties."+TRUST)

prop("M09", "Asking for nearest clusters returns the n most similar, removing only those",
 "Asking a node for its n nearest clusters returns min(n, clusters of that dimension) clusters ordered by similarity of their vectors to the query, and reports failure exactly when that is none. With removal exactly those clusters leave the node and the remaining ones keep their points and order; without removal nothing changes.",
 ["inputs","histories"], "all node states, queries, dimensions and n, including n beyond the number of clusters and taking the last cluster",
 "one test asks for one of two clusters",
 [CM], [{"name":"NearestCentroids","where":CM}], ["returned clusters; cluster list before/after"],
 tech="property-based testing with full-sort reference",
 note="Order judged up to 1e-9 ties."+TRUST)

prop("M10", "Node redistribution moves each cluster's worst points to the best receiver",
 "Redistributing n points from a node takes an even share (differing by at most one unless exhausted, n in total at most) of worst-fit points from each cluster and delivers each to the nearest receiver, or back to its cluster if refused; internal redistribution does this with the node's own clusters as receivers. Without receivers nothing changes, and the node's vector is the mean of its clusters' vectors afterwards.",
 ["inputs","histories"], "all node states, receiver sets (accepting, refusing, other dimensions) and all n including n <= 0",
 "two tests with two clusters and one receiver",
 [CM, CE], [{"name":"DistributeDataPoints, DistributeDataPointsInternal","where":CM}], ["offers recorded by receivers; clusters before/after"],
 tech="property-based testing with recording receivers and exact oracle",
 note="Placement judged up to 1e-9 ties."+TRUST)

prop("R01", "A remote call has the same result and effect as the local operation",
 "Every data operation offered by the network client returns what the same operation on a local node with the same state returns and leaves the remote node in the same state as the local one, with point vectors, payloads and expiry times intact across the wire.",
 ["inputs","histories"], "all operation sequences and arguments on all node states, compared step by step",
 "each remote operation is tested once on a two-point node",
 [RS, RC], [{"name":"client methods and server forwards","where":RC}], ["return values and full node state on both sides after every step"],
 tech="differential stateful property testing: remote node vs. local replica",
 note="Results compared as multisets where the code leaves the order open."+TRUST)

prop("R02", "Namespaces are isolated and accurately listed",
 "Operations in one namespace never change or reveal data of another, whatever their names. The namespace list and the metadata of a node name exactly the namespaces in use, each once, with their true numbers of clusters and points.",
 ["histories","inputs"], "all operation sequences spread over any set of namespace names (empty, unicode, prefixes of each other, very long)",
 "tests use a single namespace name",
 [RR, RS], [{"name":"CManagerTable / CManagerSlot","where":RR}], ["state of all namespaces before/after each operation; Namespaces, Meta, LenDP"],
 tech="stateful property testing with per-namespace models over RPC",
 note="Also covers operations on namespaces that do not exist."+TRUST)

prop("R03", "A node acknowledges an add exactly when it stored the point",
 "A remote add answers true if and only if the point is stored afterwards, exactly once; refused points (expired or of a dimension the node cannot place) are answered false and change no data. This holds equally for the first add in a namespace.",
 ["inputs","histories"], "all points (any dimension, expired or not, any payload) against all node states, including first use of a namespace",
 "the test adds one valid point; refusals are not tested",
 [RS], [{"name":"KMeansServer.AddDataPoint","where":RS}], ["reply of the add and node contents before/after"],
 tech="stateful property testing: reply vs. observed storage",
 note="Direct and over-the-wire calls."+TRUST)

prop("R04", "Concurrent requests behave as if serialised; nothing is lost or duplicated",
 "Under any concurrent mix of requests to a node whose points share one dimension per namespace, including simultaneous first use of a namespace, every acknowledged point is afterwards either stored exactly once or was returned by exactly one removing call, reads never see torn state, and there are no data races. Operations on one namespace are mutually exclusive while different namespaces do not block each other. (While its first add is in progress, a namespace may be seen as existing and empty.)",
 ["schedules","histories"], "all interleavings of concurrent clients over one or several namespaces",
 "all tests are sequential",
 [RR, RS], [{"name":"CManagerTable and CManagerSlot locks","where":RR}], ["acks, removal results and final contents; overlap of injected search callbacks; race detector"],
 tech="randomised concurrent histories with injected yields, conservation oracle, race detector",
 note="Interleavings are sampled (randomised delays in injected callbacks + Go race detector), not enumerated."+TRUST)

prop("R05", "Distributing points across nodes loses nothing and reaches the best-fit node",
 "Distributing n points from one node to others (fast or accurate) moves at most n worst-fit points, each to exactly one node holding the namespace, namely the most similar reachable one that accepts it, or leaves it on the origin. Across all nodes no point is lost, duplicated or altered, whatever addresses are given: none, unreachable, repeated, the origin itself, without the namespace, or of another dimension.",
 ["inputs","histories","fault_sequences"], "all node contents, address lists and n, with any subset of the peers unreachable or dropping connections",
 "tests distribute between two or three healthy nodes",
 [RS, RU], [{"name":"DistributeDataPointsFast/Accurate, distributeDP","where":RS},{"name":"fetchVecs","where":RU}], ["contents of all nodes before/after"],
 tech="property-based testing on real loopback nodes with fault injection and placement oracle",
 note="Faults are refused connections and connections cut before the request is delivered; a reply lost after delivery is outside the claim. Placement judged up to 1e-9 ties."+TRUST)

prop("R06", "Stealing clusters moves whole clusters once and reports truthfully",
 "Stealing with limit L moves whole clusters from the other node to this one, nearest first, until at least L points have moved or the other node has none left of that dimension, creating the namespace here if needed; nothing is lost or duplicated. The reported number equals the points that arrived, and success is reported exactly when there was no network or namespace error.",
 ["inputs","histories","fault_sequences"], "all contents of both nodes (including empty clusters and a namespace missing on either side), all limits, reachable and unreachable sources",
 "one test steals between two healthy nodes with the namespace present",
 [RS, RC], [{"name":"KMeansServer.StealCentroid","where":RS},{"name":"client NearestCentroids re-initialisation","where":RC}], ["clusters of both nodes before/after; reported count and flag"],
 tech="property-based testing on real loopback nodes with exact oracle",
 note="Order judged up to 1e-9 ties."+TRUST)

prop("R07", "No request can crash or hang a node",
 "A node answers every well-typed request, whatever its arguments (negative, zero or huge counts, empty, mismatched or non-finite vectors, unknown namespaces, inverted ranges, any node state), and any bytes sent to its port, by completing or returning an error, without terminating, blocking forever or allocating memory in proportion to a requested count it cannot satisfy. Afterwards it still serves other requests correctly.",
 ["inputs","histories"], "all request arguments on all node states, all raw byte streams",
 "tests send only small valid arguments",
 [RS, RC, CM, CE, SU], [{"name":"RPC endpoints and everything below","where":RS}], ["process survival, reply, bounded time and memory, follow-up request"],
 tech="argument and byte-stream fuzzing of the RPC surface with liveness probe",
 note="Hang means minutes without completion for millisecond work, confirmed on replay."+TRUST)

prop("R08", "Client failures are reported and never fabricate data",
 "A client call to a node that cannot be reached, or on a namespace that does not exist where the operation cannot create it, reports an error to the caller and returns only zero results; a call that succeeds reports no error. Such a failing call changes no data anywhere.",
 ["inputs","fault_sequences"], "all client operations with all arguments against unreachable addresses, stopped nodes, connections cut before delivery and missing namespaces",
 "errors are not asserted by the tests",
 [RC, RS], [{"name":"kmeansClient.client error plumbing, handleNamespaceErr","where":RC}], ["error pointer and return values; node state"],
 tech="property-based testing with fault injection on real connections",
 note="Faults: refused connection, listener stopped, connection cut before the request is forwarded."+TRUST)

prop("R09", "Requests and maintenance leave nothing running behind",
 "However often the operations of the system are used (client calls, ranking, adding and fetching of data points, HTTP requests, maintenance loops that are started and stopped), whether they succeed or fail, nothing of them stays behind in the processes involved: once they are over, the numbers of running goroutines and of open connections or files return to what they were, instead of growing with every request.",
 ["inputs","configurations","fault_sequences"], "all sequences and overlaps of client calls, rankings, puts, gets, HTTP requests and loop starts and stops against live, dead and connection-dropping addresses, with existing and missing namespaces",
 "tests call each operation a few times and never look at what remains",
 [RC, RR, NV, ND, DP, EL, "core/api/handlers.go"], [{"name":"kmeansClient.client, fetchVecs, put and get over the nodes, event loop shutdown","where":RC}], ["goroutine count and open descriptors of the process before and after"],
 tech="property-based testing with fault injection; resource counts as invariant over the history",
 note="Nodes, callers, API and loops share one process, so both sides of every connection are counted. Each case repeats its operations 12-52 times; a leak of one resource per four rounds is seen, a constant remainder of up to three is not counted."+TRUST)

prop("N01", "Best-fit node ranking orders reachable nodes by similarity",
 "Ranking nodes for a vector returns exactly the reachable nodes which hold the namespace with matching dimension, each given address once, ordered by similarity of the node's vector (fast) or of its nearest cluster's vector (accurate) to the query. Unreachable or unsuitable nodes are left out and never disturb the order of the others; ranking changes no data.",
 ["inputs","configurations","fault_sequences"], "all node contents, address lists in any order, queries and search measures, with any subset unreachable or lacking the namespace",
 "tests rank three healthy fixed nodes",
 [ND, NV], [{"name":"bestFitNodes, fetchVecs","where":ND}], ["returned address list vs. reference ranking from node state"],
 tech="property-based testing on real loopback nodes with reference ranking",
 note="Order judged up to 1e-9 ties."+TRUST)

prop("D01", "Putting a point stores it exactly once on the best-fit node, or reports failure",
 "A put reports success if and only if the point is then stored, unaltered, exactly once among the given nodes. Fast and accurate puts store it on the best-ranked node that accepts it, and fail without effect if no reachable node holds the namespace; a random put may pick any reachable node which accepts it.",
 ["inputs","configurations","fault_sequences"], "all points, node contents and address lists with any subset unreachable, lacking the namespace or refusing the point",
 "tests put one point among three healthy nodes",
 [PD, DD, ND], [{"name":"putDataPoint, PutDataPointRand/Fast/Accurate","where":PD}], ["reply; contents of all nodes before/after"],
 tech="property-based testing on real loopback nodes with exact-once and placement oracle",
 note="Placement judged up to 1e-9 ties."+TRUST)

prop("D02", "Getting points returns min(n, available) from best nodes first, no duplicates",
 "Getting n points returns exactly min(n, live points of the query's dimension on the (distinct) nodes considered), best-ranked node first and each node's own lookup order within, and never a point twice. With drain exactly the returned points disappear from the nodes and from no other namespace; without drain nothing changes.",
 ["inputs","configurations","fault_sequences"], "all node contents, address lists (distinct), queries, n and drain flags, with any subset unreachable",
 "tests get from three healthy nodes with one n",
 [GD, DD, ND], [{"name":"getDataPoints, GetDataPointsRand/Fast/Accurate","where":GD}], ["returned points; contents of all nodes before/after"],
 tech="property-based testing on real loopback nodes with reference retrieval",
 note="Order judged up to 1e-9 ties."+TRUST)

prop("D03", "Random puts and gets reach every node",
 "Putting a point on a random node and getting points from random nodes really are random: repeated with the same list of addresses, whatever its order and even if some nodes are down, they succeed each time, every live node receives some of the points, and every node which holds points is at times the one asked first. The caller's list of addresses is left as it was.",
 ["inputs","configurations","fault_sequences","histories"], "all numbers and orders of addresses, contents of the nodes and subsets of unreachable nodes, over long runs of the same operation",
 "tests use one node or look at one call",
 [DD, PD, GD], [{"name":"shuffleAddrs","where":DD}], ["which node stored or returned the points over 500 repetitions"],
 tech="property-based testing on real loopback nodes with a distribution oracle",
 note="Only judged: no live node is left out in 500 tries (an error probability below 1e-12 for any roughly even choice). The distribution itself is not specified."+TRUST)

prop("A01", "Points put through the HTTP API come back intact and nearest first",
 "A point accepted by the put route (status 200) is stored exactly once in the given namespace and is returned by the query route with vector, payload, expiry and expiry flag unchanged; a query answers 200 with a JSON list of exactly min(n, live points) points. Draining queries return each point once and only points of the requested namespace and dimension.",
 ["inputs","histories"], "all sequences of put and query requests over any namespaces, vectors, payload bytes, expiry settings, n, accurate and drain flags",
 "the API test is not part of the stable tests and puts one point",
 [AH, AC, PD, GD], [{"name":"putDataPoint, queryDataPoint handlers, DP conversion","where":AH}], ["HTTP status and body; state of the RPC nodes behind the API"],
 tech="stateful property testing over real HTTP with a model of the stored points",
 note="API served by the shipped Start function in front of several real nodes."+TRUST)

prop("A02", "Malformed or unsatisfiable API requests are rejected without effect",
 "A request body which is not valid JSON of the expected types is answered with status 400 and has no effect. A put that no node could store (expired point, unplaceable dimension, no node reachable) is answered 500 and stores nothing, and the API keeps serving afterwards.",
 ["inputs","fault_sequences"], "all byte sequences and mistyped JSON bodies on both routes, all unsatisfiable puts",
 "no test sends an invalid request",
 [AH, AP], [{"name":"tryUnpackRequestOptions, status selection","where":AH}], ["HTTP status; node state before/after; follow-up request"],
 tech="structure-aware and byte-level fuzzing of the HTTP surface with state oracle",
 note="Validity of a body judged by an independent decoder of the documented field types."+TRUST)

prop("E01", "Background maintenance never loses, duplicates or alters data",
 "While the maintenance loops of any number of nodes run any mix of their tasks (expiry, trimming, merging, splitting, internal and cross-node distribution, load balancing) with any parameters, every stored unexpired point is, once the loops are quiet, on exactly one node in its namespace with content unchanged, and expired points are the only ones that disappear. This holds with some of the configured peers unreachable, for namespaces whose points share one dimension.",
 ["histories","configurations","schedules","fault_sequences"], "all initial placements, task parameters and intervals, numbers of loop iterations, and sets of unreachable peers",
 "the event loop has no automated tests",
 [EL, ET, EU, RS, CM], [{"name":"event-loop tasks","where":ET}], ["contents of all nodes before and after quiescence"],
 tech="property-based testing of real event loops on loopback nodes, conservation oracle at quiescence",
 note="Loops are paused deterministically through their logger; task interleavings within an iteration are sampled."+TRUST)

prop("E02", "Maintenance tasks run on schedule with the configured parameters",
 "A task with interval k runs on every k-th loop iteration starting with the first, for every namespace of the local node and only on the local node, with the configured sizes, ranges and peer addresses. Intervals below one mean every iteration, intervals above 1000 mean never, and no setting stops the loop.",
 ["configurations","histories"], "all combinations of task intervals (negative, zero, 1..1000, above) and parameters, over many loop iterations including more than 1000",
 "the event loop has no automated tests",
 [EL, ET, EC], [{"name":"withSkip, clamp, EventLoop","where":EL}], ["calls received by a recording node per loop iteration"],
 tech="property-based testing with a recording stub node and exact schedule oracle",
 note="Iterations delimited through the logger callback of the loop."+TRUST)

prop("E03", "Load balancing pulls data from overloaded peers to underloaded nodes only",
 "A load-balancing step only ever moves whole clusters to the local node, only in namespaces where the local node holds clearly less than the average, and only from peers holding clearly more than the average. A node holding nothing does receive data when some peer holds more than twice the average and the average is at least three times the number of nodes.",
 ["inputs","configurations"], "all distributions of points over nodes and namespaces, including empty nodes and unreachable peers",
 "the event loop has no automated tests",
 [ET, EU], [{"name":"eltLoadBalancing","where":ET}], ["steal requests issued and contents of all nodes before/after a step"],
 tech="property-based testing on real nodes with direction and progress oracle",
 note="'Clearly' is judged as a fifth below/above the mean; the exact margin is not part of the claim."+TRUST)

prop("E04", "A stopped maintenance loop starts no further task",
 "After the stop function of a maintenance loop has been called, at most the task already in progress completes and no further task is started, no matter in which task or pause the loop was stopped; other loops are unaffected. Stopping is safe to call more than once.",
 ["schedules","configurations"], "all points of the loop at which stop may be called, all configurations",
 "the event loop has no automated tests",
 [EL], [{"name":"elStep stop checks","where":EL}], ["calls received by a recording node after stop"],
 tech="property-based testing with a recording stub node, stopping at every task boundary",
 note="Stop points are chosen at logger callbacks and request arrivals."+TRUST)

prop("E05", "Monitoring metadata handed to the logger matches the nodes",
 "The metadata a maintenance loop hands to its logger names exactly the configured addresses (or only the local node when so configured), and for every reachable node lists exactly its namespaces, each with the number of points and clusters the node holds at that moment. Unreachable nodes appear without data, and collecting metadata changes nothing.",
 ["inputs","configurations","fault_sequences"], "all contents of the nodes, sets of namespaces and configured addresses, with any subset unreachable",
 "the event loop has no automated tests",
 [EL, ET, "core/eventloop/log.go"], [{"name":"eltMeta and the logger","where":ET}], ["the record received by the logger vs. contents of all nodes"],
 tech="property-based testing on real nodes; metadata compared with the stored data",
 note="One loop with only the metadata task; contents read through the node itself."+TRUST)

prop("E06", "The default log shows the true totals of every monitored node",
 "A maintenance loop without a logger of its own prints, whenever it runs a task, one line per monitored node (all configured addresses, or only the local node when so configured) with that node's address and its true numbers of namespaces, clusters and data points, summed over its namespaces as of the last metadata collection; unreachable nodes are shown with zeros. The task is named on the local node's line. Without metadata collection it prints one line per task, with the local address and the task.",
 ["inputs","configurations","fault_sequences"], "all contents of the nodes and changes of them between collections, sets of namespaces, address lists with the local node anywhere in them, and task selections, with unreachable peers",
 "the default logger has no tests",
 ["core/eventloop/log.go", EL, ET], [{"name":"defaultLogger.LogTask and LogMeta","where":"core/eventloop/log.go"}], ["lines written to the standard log vs. contents of all nodes"],
 tech="property-based testing on real nodes; log lines compared with the stored data",
 note="Data changes only between iterations of the loop. The layout of a line is fixed as '[address] namespaces: n | centroids: n | dps: n'; the text of the task is not judged."+TRUST)

prop("K01", "Broken configurations are rejected at construction",
 "Creating a cluster or node without a nearest- or furthest-search function fails, and creating it with both succeeds with the initial vector copied (later changes to the caller's slice do not show). Starting the HTTP API without a list of node addresses (nil) returns an error, a nil maintenance configuration is refused, and starting a node on an address in use returns an error.",
 ["configurations"], "all combinations of present and missing configuration fields, initial vectors and non-negative capacities",
 "construction failures are not tested",
 [CE, CM, AP, EC, RR], [{"name":"NewCentroid, NewCentroidManager, APIConfig.check, EventLoopConfig.validate, StartListen, AddSlot","where":CE}], ["constructor results"],
 tech="property-based testing over configuration combinations",
 note="Exact."+TRUST)

prop("B01", "Arbitration summaries reflect all members",
 "The error summary over arbitration members reports an error (with the address it belongs to) exactly when at least one member has one, and the status summary is true exactly when every member has the asked status. Session members and servers built here behave by the configured address, whitelist and durations, and when a vote among them succeeds all members name the same member as arbiter.",
 ["inputs","configurations"], "all maps of members to errors/statuses, all configurations",
 "the arbiter tests are not among the stable tests and cover one status",
 [AR], [{"name":"ArbErrs.CheckAll, ArbStats.UniformStatus, NewSessionMember","where":AR}], ["return values"],
 tech="property-based testing against direct definitions",
 note="The arbitration protocol itself lives in an external module and is not covered."+TRUST)

prop("V01", "The shipped service stores and serves data end to end",
 "The service program as shipped starts with its default configuration and over its HTTP API accepts points, returns the nearest stored ones intact, drains them once, and keeps all data across background maintenance iterations. Its configuration names a consistent set of addresses, search functions and maintenance settings.",
 ["inputs","histories","configurations"], "all request histories against the running service",
 "nothing builds or runs the service in the tests",
 [SV, CF, AP, EL], [{"name":"main wiring","where":SV},{"name":"default configuration","where":CF}], ["HTTP replies of the running binary"],
 tech="stateful property testing against the built service binary",
 note="One service process per run on its fixed loopback ports."+TRUST)

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id":p["id"],"title":p["title"],"statement":p["statement"],
                 "quantifier":{"over":p["over"],"text":p["text"]},
                 "why_tests_cant":p["why"],
                 "anchors":{"files":p["files"],"state":p["state"],"mechanism":p["mech"],"observe_at":p["observe"],"hook_needed":None}}
            f.write(json.dumps(d, ensure_ascii=False)+"\n")
    done = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else None
    checks, na = [], []
    for p in P:
        if p["claimed"] and (done is None or p["id"] in done):
            checks.append({"property":p["id"],
              "quick_cmd":"python3 check.py %s"%p["id"],
              "thorough_cmd":"VERIF_TIER=thorough python3 check.py %s"%p["id"],
              "evidence_file":"evidence/%s.json"%p["id"],
              "technique":p["tech"],"level":p["level"],"level_note":p["note"]})
        else:
            na.append({"property":p["id"],"reason":p["reason"] or "check not built yet"})
    m = {"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
         "notes":"No hooks in /repo: the harness is a separate Go module using only exported API; replay: python3 check.py --replay FILE"}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()
