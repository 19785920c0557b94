PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, bounds, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, bounds=bounds, **kw))


P("P01", "Search text splits into parts and joins back without loss",
  "A search text is a list of parts separated by a single ';', and ';;' inside a part stands for one ';'. "
  "Joining any list of parts and splitting the result gives the same conditions back (empty parts drop out, blanks around a part do not count).",
  ["inputs"], "every search text and every list of parts, of bounded length, over an alphabet with the separator",
  "tests try a handful of texts; the separator runs that go wrong are specific byte patterns",
  ["page/page.go"], [("splitting", "page/page.go SearchParts"), ("joining", "page/page.go SetSearchWithParts")],
  "search texts of up to 7 (thorough 9) ASCII bytes; up to 3 parts of up to 3 bytes; texts of ~100 to 4097 bytes and dozens of parts with one free byte in each place checked")
P("P02", "A search condition selects exactly the resources it describes",
  "A plain word selects resources having some index value containing it, key=word those whose value of that key contains it, '!' before the word negates, and double quotes anchor it to the start or end of the value. "
  "A resource is selected iff it meets every condition, and an unknown key is an error.",
  ["inputs"], "every index value and search value of bounded length over all bytes, all index sizes up to the bound, all iteration orders",
  "tests use a few printable samples; escaping, negation and map order only matter for particular values",
  ["page/page.go"], [("matching", "page/page.go Match"), ("quoting", "page/page.go quote")],
  "values and needles up to 3 bytes, indexes of up to 3 keys, up to 3 conditions; values and needles of up to 4097 bytes with one free byte, dozens of keys and conditions")
P("P03", "An advanced search selects by Kubernetes label selector rules",
  "The part __ckube_as__:SELECTOR of a search selects exactly the resources whose index the selector matches under Kubernetes rules, all requirements staying in force, also several on one key or spread over several parts. "
  "Illegal selector text is an error, never a panic.",
  ["inputs"], "selectors of up to three requirements over all operators, and all short selector texts, against every index within bounds",
  "tests check single requirements on fixed keys",
  ["kube/label.go", "page/page.go"], [("selector parsing", "kube/label.go ParseToLabelSelector"), ("matching", "page/page.go Match")],
  "1-3 requirements over 2 keys and 2 values with all operators; arbitrary short selector texts; dozens of requirements and values, long keys and values, with one free byte")
P("P04", "A page holds exactly the resources at its positions",
  "Page k of size s of a result of n resources holds the resources at positions (k-1)s .. ks-1 and the total is n; page or size 0 returns everything. "
  "A negative page or size is an error, a page beyond the end is empty, and no page request panics.",
  ["inputs"], "every 64-bit page number and page size, result sizes up to the bound",
  "the failures are at overflow and boundary values; tests use small pages",
  ["store/memory/memory.go", "page/page.go"], [("window arithmetic", "page/page.go Window"), ("query", "store/memory/memory.go Query")],
  "all 64-bit page numbers against 15 page sizes, all 64-bit page sizes against 15 page numbers, all pairs in [-40,40]; up to 4 resources; 600 (1200) resources with 15 page sizes and 4 page numbers")
P("P05", "List responses report the right remaining count and total",
  "For every page of a list, served with or without a label selector, the items are the selected resources at the page's positions and remainingItemCount is the number behind the page. "
  "The total a client derives with MakeupResPaginate is the number of selected resources; negative pages and pages beyond the end are reported as client errors.",
  ["inputs"], "every page and size within bounds and at the overflow limits, every assignment of label values to resources, every selector of one requirement",
  "the selector path slices on its own, and tests compare single fixed pages",
  ["api/proxy.go", "page/page.go"], [("list handler", "api/proxy.go Proxy"), ("total", "page/page.go MakeupResPaginate")],
  "up to 4 (8) resources, pages and sizes -1..4 (7) and 9 values around 2^31, 2^62, 2^63; totals up to 100 for any page and size up to 50")
P("P06", "Pages of one query partition its result",
  "Requesting the pages 1, 2, ... of one query yields every matching resource exactly once, whatever order the cache yields resources in at each request, and the same query on the same cache gives the same list. "
  "Resources with equal sort keys, e.g. of equal name in different clusters, are no exception.",
  ["inputs", "schedules"], "every map iteration order at every request, every sort key value of the alphabet",
  "the runtime randomises map order, so a test passes or fails by chance",
  ["store/memory/memory.go"], [("ordering", "store/memory/memory.go sortObjs"), ("query", "store/memory/memory.go Query")],
  "3 (4) resources over clusters and namespaces with equal names, one-byte keys over two values, 6 sort orders, page sizes 1-2, all iteration orders of the cache's maps; 13, 40 (100) resources with equal keys, yielded in another order for each page")
P("P07", "Lists are ordered as the sort text says",
  "The sort text is a comma separated list of keys with optional !int or !str type and asc or desc direction; lists are ordered by it lexicographically or numerically, later keys deciding ties. "
  "Without a sort text the order is cluster, namespace, name; an unknown key, type or direction, surplus words and non-numbers in a numeric sort are errors and serve nothing.",
  ["inputs"], "every key value within bounds (any printable text, any number of up to two digits and a sign) against every combination of type, direction and notation",
  "ties, signs, mixed directions and malformed texts multiply beyond samples",
  ["store/memory/memory.go"], [("sort text", "store/memory/memory.go sortObjs")],
  "2-3 resources, key values up to 1 (2) bytes, numbers up to 2 digits plus 12 special notations, up to 2 keys; 13, 40 (200) resources")
P("P08", "The cache holds the last reported state of every resource",
  "After any history of add, modify, delete and clean events the cache holds, per kind, cluster, namespace and name, exactly the last state reported and not since deleted or cleaned. "
  "Get, list and search answer from exactly that, and cleaning or deleting in one cluster or kind leaves every other alone.",
  ["histories"], "every history of bounded length over events, kinds, clusters, namespaces and names (also one event on a full cache)",
  "tests run fixed event sequences; stale or lost entries depend on which identities coincide",
  ["store/memory/memory.go"], [("events", "store/memory/memory.go OnResourceAdded OnResourceModified OnResourceDeleted Clean"), ("reads", "store/memory/memory.go Get Query")],
  "histories of 3 (4) events over 2 kinds, 2 clusters, 2 namespaces (or none), 2 names; single events on a cache with all identities present")
P("P09", "A resource is indexed by the configured fields of its current state",
  "The index of a cached resource holds every configured JSONPath, template or constant evaluated on its current state, plus its cluster, namespace, name and deletion mark, and is also found in its annotations. "
  "No index field changes what another one holds, searching never matches a former state, and missing fields index as empty.",
  ["inputs"], "every field value within bounds, present or missing labels and annotations, added or updated, single or repeated updates",
  "tests index a few fixed objects",
  ["store/memory/memory.go"], [("index building", "store/memory/memory.go buildResourceWithIndex")],
  "field values up to 2 (3) bytes, 7 index forms, up to two states of one resource, another index field next to it with 7 forms incl. failing ones, in every order of evaluation; values of up to 4097 bytes with one free byte, up to 17 (33) fields")
P("P10", "A list stays within the clusters it names, or the default cluster",
  "A list of a cached kind that names no cluster holds resources of the default cluster only, whatever that is called and whatever search, selector or advanced search comes along. "
  "A list that names clusters with Clusters() holds exactly the matching resources of those.",
  ["inputs"], "every cluster name within bounds, every search text within bounds, every advanced requirement on other keys, next to selectors and namespaces",
  "leaks appear for particular names and search combinations only",
  ["api/proxy.go", "page/page.go"], [("default cluster", "api/proxy.go Proxy"), ("cluster restriction", "page/page.go Clusters GetClusters")],
  "cluster names up to 2 (3) bytes over 46 bytes incl. separators (no double quotes), search texts up to 3 (4) bytes, 1-2 requirements, 2-3 resources; up to 17 (40) clusters with names of up to 61 bytes")
P("P11", "A namespaced request sees exactly that namespace",
  "A list of a namespace holds exactly the resources of that namespace, a list without one all namespaces, and namespaces set in the page query restrict further. "
  "A single resource is found under its own kind, cluster, namespace and name only, also when names are prefixes of one another.",
  ["inputs"], "every assignment of short names to clusters, namespaces and resources and to the request",
  "tests use distinct, unrelated names",
  ["api/proxy.go", "store/memory/memory.go", "page/page.go"], [("namespace filter", "store/memory/memory.go Query Get"), ("handler", "api/proxy.go Proxy ProxySingleResources")],
  "3 (4) resources, names up to 2 bytes over 2-3 letters, 1-2 restricting namespaces; long namespaces that differ in one byte, and many of them")
P("P12", "Requests that are not cached reach the right cluster unchanged",
  "A request that is no plain read of a cached kind is sent exactly once (again only when throttled) to the cluster it names, or the default one, with the same method, path, body, patch type, query and meaning of its label selector, and the answer is relayed. "
  "A request for an unknown cluster is a 404 and reaches no cluster.",
  ["inputs"], "every method, every path, query, body and cluster name within bounds, every selector of up to two requirements evaluated on every label set",
  "encodings and body handling go wrong for particular bytes, methods and retries",
  ["api/proxy.go"], [("dispatch", "api/proxy.go Proxy parsePaginateAndLabelsAndClean"), ("forwarding", "api/proxy.go proxyPass getRequest")],
  "7 methods; path tails up to 2 (3) bytes over 48 bytes; query keys up to 2 and values up to 2 (3) ASCII bytes; bodies up to 3 (5) bytes, of known length or in chunks; up to 2 throttled replies; 1-2 requirements; paths, queries and bodies of up to ~1000 (4097) bytes with one free byte")
P("P13", "Operations on one object go to the cluster named in their options",
  "Get, create, update, patch and delete with options from Query*Options(cluster) act on exactly that cluster, the marker itself never reaches it, and all other options and the body do. "
  "Options already in use are refused rather than overwritten, and a dry-run delete stays one.",
  ["inputs"], "every cluster name within bounds, every operation, cached and uncached kinds, with and without other options",
  "tests route a few fixed names and never compare what reaches the cluster",
  ["page/page.go", "api/proxy.go"], [("markers", "page/page.go QueryGetOptions QueryDeleteOptions"), ("routing", "api/proxy.go parsePaginateAndLabelsAndClean")],
  "cluster names up to 3 (4) ASCII bytes over 54 bytes, 5 operations, delete options with grace period, propagation, preconditions, dry run; bodies of known length or in chunks; cluster names of 16 to 253 bytes that differ in one byte")
P("P14", "A page query reaches the server as it was asked",
  "Any page, size, sort and search text put into list options with QueryListOptions is a legal label selector and arrives at the cache unchanged, together with the user's own label selector, limit and namespace. "
  "This includes texts of any length and any characters.",
  ["inputs"], "every search and sort text within bounds over ASCII, special texts outside it, long texts, all page and size values of the boundary set, every selector of up to two requirements",
  "base64, JSON and label rules collide on particular bytes and lengths",
  ["page/page.go", "api/proxy.go", "kube/label.go"], [("encoding", "page/page.go QueryListOptions"), ("decoding", "api/proxy.go parsePaginateAndLabelsAndClean")],
  "texts up to 2 (3) bytes over ASCII, 19 special texts pairwise, texts of up to ~100 (530) characters, 10 boundary numbers and all in [-12,12] ([-30,30])")
P("P15", "Splitting a text into label values and merging them loses nothing",
  "SplittingValue yields legal label values, and MergeValues gives the text back from them in any order. "
  "Malformed parts are an error.",
  ["inputs"], "every text of the lengths in the bounds over the base64 alphabet, values in given, reversed, rotated and sorted order",
  "lengths where positions get another digit are never sampled",
  ["kube/label.go"], [("split and merge", "kube/label.go SplittingValue MergeValues")],
  "all lengths 0..400 (900) and 7 lengths around 10000, 4 orders")
P("P18", "Restricting a query to clusters or namespaces keeps the rest of it",
  "Clusters() and Namespaces() restrict a page query to exactly the given names and leave every other condition, plain or advanced, in force; the last restriction of a kind counts and the two kinds do not touch each other. "
  "GetClusters reads back the clusters that were set.",
  ["inputs"], "every pair of advanced requirements and every plain condition within bounds, evaluated on every resource",
  "which parts survive depends on how parts and requirements are spread",
  ["page/page.go"], [("restrictions", "page/page.go Clusters Namespaces SetSearchWithParts")],
  "1-2 requirements over 3 keys in 1-2 parts, 1-2 names, plain conditions of one byte incl. separators; up to 17 (40) names of up to 61 bytes next to many conditions")
P("P25", "A watch relays its stream byte for byte and without delay",
  "A watch request is forwarded to its cluster and everything the stream delivers is relayed unchanged, however it is cut into reads and however it ends, every event as soon as it is complete. "
  "A watch the cluster refuses is answered with its status code, one that cannot reach it with an error.",
  ["inputs", "schedules"], "every stream content within bounds, with empty reads, the last byte with or before the end, clean and broken ends, all ways to ask for a watch",
  "how a stream is cut into reads depends on the transport; tests use none",
  ["api/proxy.go"], [("streaming", "api/proxy.go proxyPassWatch"), ("recognising a watch", "api/proxy.go isWatchRequest")],
  "streams up to 5 (8) arbitrary bytes, one empty read, 6 request forms; through the server streams of up to 3 (5) bytes and lines of up to 4095 bytes, status codes 300-599")
P("P26", "Errors and answers of a cluster are relayed as such",
  "A successful answer of a cluster is relayed byte for byte; an error is answered with a failure Status of the same code, whatever method, content type or body; a cluster that cannot be reached, or whose answer breaks off, is an error, never a success.",
  ["inputs", "fault_sequences"], "every status code 200-599, every body within bounds, every method and content type, connection failures",
  "tests use one or two codes",
  ["api/proxy.go"], [("relaying", "api/proxy.go proxyPass errorProxy")],
  "all codes 200-599, bodies up to 5 (9) arbitrary bytes, 7 methods, 4 content types; broken answers to 8 paths with 16 words in them, such as watch, and 3 (6) queries; answers and errors of up to 4097 and of 100000 bytes with one free byte")
P("P16", "Without the configured token nothing is served",
  "While a token is configured, every request whose Authorization header does not carry it is answered 401 and reaches neither cache nor cluster, whatever its method and URL; only the health endpoint is open. "
  "With the token, or when none is configured, requests are served; the token of the current configuration counts.",
  ["inputs", "configurations"], "every token and header within bounds, every method, all kinds of URLs, token changes between requests",
  "tests call the handlers below the gate",
  ["server/server.go", "api/proxy.go"], [("gate", "server/server.go registerRoutes"), ("routes", "server/route.go")],
  "tokens up to 3 (4) bytes, headers up to 3 (4) bytes with and without scheme, 17 URLs, 7 methods; tokens of up to ~1000 (4097) bytes that differ in one byte")
P("P17", "The services of a deployment are those that select its pods",
  "The services answered for a deployment are exactly those of its cluster and namespace whose non-empty selector matches the labels of its pods. "
  "Pods of deployments of similar name, of other owners, namespaces or clusters do not count.",
  ["inputs"], "every label value and selector shape within bounds, every pair of deployment names within bounds, all placements over clusters and namespaces",
  "tests use one deployment",
  ["api/extend/deploy2service.go"], [("lookup", "api/extend/deploy2service.go Deploy2Service")],
  "names up to 3 (4) bytes over 3 letters incl. '-', up to 2 pods, 2 (3) services with 5 selector shapes, typed and untyped; pods of one deployment have the same labels; dozens of services, pods and deployments with long names")
P("P22", "Objects of kinds without a Go type are kept as reported",
  "An object of a kind ckube has no Go type for is answered with every field it was reported with and no other, whole numbers exactly. "
  "A copy shares nothing with its original, and no malformed object ends the process.",
  ["inputs"], "every JSON value within bounds in a field next to kind and metadata, incl. 64-bit numbers and any printable text",
  "tests use one object",
  ["watcher/watcher.go"], [("reading and writing", "watcher/watcher.go ObjType UnmarshalJSON MarshalJSON"), ("copying", "watcher/watcher.go ObjType DeepCopyObject")],
  "JSON values of depth 1 (2), texts up to 1 (2) bytes, 42 numbers around 2^53, 2^63, 2^64, 4 malformed positions; each metadata field and every 2 in a row (any 2), known to the Kubernetes version ckube is built with; texts of up to ~256 (4097) bytes, deep nesting and many fields")
P("P23", "A failing request fails alone and is reported as an error",
  "Whatever a request panics with, it is answered with status 500, and the next one is served. "
  "A cluster that cannot be reached is an error, never an empty success, and the client sees the status code of a cluster's error.",
  ["inputs", "fault_sequences"], "every kind of panic value, at the cache check, the query and the read, once or twice in a row, every status code, all methods",
  "tests inject no panics",
  ["server/server.go", "api/proxy.go"], [("containment", "server/server.go registerRoutes"), ("errors", "api/proxy.go proxyPass")],
  "8 panic values, 5 URLs, all codes 200-599 without redirects, 5 methods")
P("P30", "Every URL names the same resource as it does in Kubernetes",
  "A GET URL of a cached kind is answered from the cache for exactly the group, version, kind, namespace and name in it, with no request to a cluster; "
  "a list is the JSON list of the kind configured for that group and version, holding the resources of the page and the count of what remains. "
  "Every other URL (subresources, other groups or versions, discovery) is forwarded as it is.",
  ["inputs"], "every namespace and name within bounds, core and named groups, single and list, namespaced and not, 18 other URL shapes",
  "tests set the route variables by hand and do not go through the router",
  ["server/route.go", "api/proxy.go"], [("routes", "server/route.go"), ("dispatch", "api/proxy.go Proxy")],
  "namespaces and names up to 2 (3) bytes over a-b, 1, '.', '-' without '.' and '..'; 4 kinds, 4 groups, 2 versions; lists of up to 2 (3) resources, all or a first page, among 16 configured kinds")
P("P19", "The cache follows the watch streams of every cluster",
  "Every configured kind is watched in every cluster, with kinds known to Kubernetes and custom ones next to each other. The cache holds what the events of the current stream report, however they are cut into reads, for that cluster and kind only. "
  "A broken or refused watch is opened again, and what the new stream reports replaces the old state; a refused one loses nothing; a stopped watch changes nothing any more.",
  ["histories", "fault_sequences"], "every event sequence within bounds, every way to cut it, clean and broken ends, malformed events, every status code of a refusal, any label",
  "tests feed the cache by hand; nothing tests the watcher",
  ["watcher/watcher.go", "store/memory/memory.go"], [("watching", "watcher/watcher.go watchResources"), ("codecs", "watcher/watcher.go newCodecs")],
  "2 (3) events on 2 names, 3 cuts, 3 ends, 4 malformed tails, 2 clusters, one reconnect, kinds without Go type with up to 2 (3) letters of 'List' at their end, 3 (5) kinds with and without one next to each other in any order")
P("P21", "Concurrent use of the cache, requests, reloads and watches is safe",
  "Updates of the cache at the same time all take effect; a list taken meanwhile holds what does not change and the old or new state of what does. "
  "A request during a reload is answered from the old or the new configuration, requests and watches do not disturb one another, and no access to shared memory is unordered.",
  ["schedules"], "every schedule with a bounded number of preemptions at synchronisation points, with happens-before race detection on every memory access in between",
  "tests run one goroutine",
  ["store/memory/memory.go", "server/server.go", "common/config.go", "watcher/watcher.go", "api/proxy.go"], [("cache", "store/memory/memory.go"), ("reload", "server/server.go ResetStore"), ("configuration", "common/config.go")],
  "2 goroutines, 2 (3) preemptions on the cache, 1 (2) on requests; a reload that keeps the default cluster")
P("P29", "The kubectl plugin queries exactly the clusters it is given",
  "kubectl ckube get lists what the user's selector, however spelled and placed, selects in exactly the clusters of --clusters; create goes to the one cluster named. "
  "Without --clusters kubectl gets the user's arguments unchanged. Clusters or selectors that can not be combined are refused, unknown subcommands are not run, and kubectl's exit status is passed on.",
  ["inputs"], "every order of the arguments, every spelling of the selector flag, every selector of the requirements in the bounds, every cluster name and resource within bounds, through the real server",
  "the plugin has no tests",
  ["cmd/ckube-plugin/main.go", "page/page.go"], [("plugin", "cmd/ckube-plugin/main.go main")],
  "up to 2 (3) requirements, 1-2 clusters, 5 spellings, all orders of up to 5 parts, flags of kubectl's before and after the subcommand, 4 exit statuses; up to 12 (40) clusters with names of up to 61 bytes and long selectors")
P("P31", "The selector ckubecli prints asks the server for what its flags say",
  "Listing with the selector ckubecli prints gives the page, the order, the search and exactly the clusters of its flags. Clusters that can not be named are refused and nothing is printed.",
  ["inputs"], "every search text, cluster name, page and size within bounds, through the real server",
  "the program has no tests",
  ["cmd/ckubecli/main.go", "page/page.go"], [("program", "cmd/ckubecli/main.go main")],
  "searches up to 2 (3) bytes, pages and sizes 0-9, 5 sort keys, 1-2 clusters; up to 12 (40) clusters with names of up to 61 bytes, long searches, far pages")
P("P24", "A table has the rows and columns of the resources it lists",
  "A list asked for as a table, as kubectl does, has one row for every resource the same request lists as JSON, in that order, with the resource's own values under every configured column. "
  "Cluster, namespace and name come first, the order of maps does not matter, and a failing list is answered as a failure.",
  ["inputs"], "every value of an index field within bounds, present or missing, over clusters, kinds, sort orders and pages, in every order of the maps",
  "tests print one resource; columns are kept in a map, so a mix-up depends on chance",
  ["api/proxy.go"], [("printing", "api/proxy.go serverPrint")],
  "2 (3) resources, 2 kinds (namespaced or not), 3 sort orders, paged or not, terminating or not; all map orders for 1 (2) resources; 5, 21 (70) resources with long values and many columns")
P("P27", "The fake server behaves like one API server per cluster",
  "After any history of creates, updates, deletes and cleans, reads and lists of the fake server give the state the history leads to, per cluster; a duplicate create is refused, a missing resource is 404. "
  "Watchers get exactly the events of their kind, namespace and clusters, in order; discovery lists just the configured kinds; what can not be served is refused.",
  ["histories", "schedules"], "every history within bounds over kinds, clusters, names and labels, every set of watched clusters, concurrent clients under every schedule within bounds, every configuration of 5 kinds",
  "tests run one history; lost events and double creates depend on timing",
  ["pkg/client/fake/fake_ckube.go"], [("operations", "pkg/client/fake/fake_ckube.go proxy"), ("watches", "pkg/client/fake/fake_ckube.go watch"), ("discovery", "pkg/client/fake/fake_ckube.go apis resources")],
  "3 (4) operations on one kind, 2 (3) on two kinds and three namespaces (one a prefix of another, one the same in capitals), 2 clusters, 2 names, one-byte labels; 1 (2) operations while 1-2 watchers are open; 2 concurrent clients with 1 (2) switches of goroutines; requests go through a model of the loopback network (natively the real one)")
P("P20", "cacheproxy serves what its two files say, also after they change",
  "Lists show exactly the clusters and kinds of the kube config and the config file, by context, with the current context as default; exactly those are watched and counted, and the token is demanded. "
  "Changed files, however written and whenever, take effect without a restart. Files that can not be used change nothing, or keep the program from starting.",
  ["configurations", "histories", "schedules"], "every pair of files within bounds, every way a file gets new contents, every cut of the config file, changes during start and reload under every schedule within bounds",
  "the program has no tests; lost changes and crashes depend on timing",
  ["cmd/cacheproxy/main.go", "utils/fs_watcher.go", "server/server.go", "watcher/watcher.go"], [("program", "cmd/cacheproxy/main.go main"), ("loading", "cmd/cacheproxy/main.go loadFromConfig"), ("reload", "server/server.go ResetStore")],
  "2 clusters, up to 2 contexts, 2 kinds, one-byte context names and tokens, 1 (2) reloads in 5 ways, 6 kinds of broken files, 5 ways to configure indexes, 1 (2) switches of goroutines; network, files and inotify are modelled (natively the real ones); in-cluster service accounts are not covered")
P("P28", "The file watcher reports every change of its files until it is closed",
  "Whatever happened before, a file that is rewritten, replaced, made again or moved is reported after its last change, one that is gone is reported once, and others are not reported. "
  "More changes than inotify can hold are made up for. Closing at any time ends the events, panics nowhere and leaves no inotify instance open.",
  ["histories", "schedules"], "every history of changes within bounds on two files, every schedule of changes, events and Close with a bounded number of switches",
  "the watcher has no tests; lost events and panics depend on timing",
  ["utils/fs_watcher.go"], [("watching", "utils/fs_watcher.go Start"), ("closing", "utils/fs_watcher.go Close")],
  "3 (4) changes out of 8 on 2 files, 2 (3) switches of goroutines; files and inotify are modelled after fsnotify 1.4.9 on Linux (natively the real ones)")
P("P32", "The metric of cached resources shows how many are cached",
  "After any history of added, modified and deleted resources and cleaned clusters, ckube_resources_total has for every cluster, kind and namespace the number of resources cached there.",
  ["histories"], "every history within bounds, over two kinds, two clusters and two namespaces of any name",
  "no test reads the metric",
  ["store/memory/memory.go", "utils/prommonitor/metrics.go"], [("counting", "store/memory/memory.go OnResourceAdded OnResourceModified OnResourceDeleted Clean")],
  "3 (4) events, 2 names, one symbolic byte in the names of clusters and namespaces; events of one cluster and kind come one after another, as from a watch; 5, 20 (70) objects over many namespaces and clusters")
