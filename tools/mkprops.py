#!/usr/bin/env python3
"""Writes properties.jsonl (source of truth for the wording of the properties)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

C = "core/src/"; H = "core/include/prometheus/"
p("C01", "Concurrent counter and gauge updates are linearizable",
  "Whenever several threads increment, decrement, set, reset and read the same counter or gauge, every call takes effect exactly once at some instant between its start and its return. No update is lost, duplicated or torn, and every value read is one the object held at such an instant.",
  ["schedules"], "all interleavings of concurrent calls on one counter/gauge, including failing compare-and-swap attempts",
  "The unit tests are single threaded; they cannot distinguish an atomic read-modify-write from a separate load and store.",
  [C+"gauge.cc", H+"gauge.h", C+"counter.cc", H+"counter.h"],
  [("atomic read-modify-write loop / fetch_add", "Gauge::Change"), ("atomic store", "Gauge::Set")],
  ["Counter/Gauge public API"], [("value_", "current value", "Gauge")])
p("C02", "Counters never go down; gauges do exactly the requested arithmetic",
  "A counter starts at 0, an increment by v >= 0 adds exactly v, an increment by a negative amount changes nothing, and only an explicit reset brings it back to 0. A gauge always holds exactly the result of its sequence of set, increment and decrement operations (increments default to 1), and setting it to the current time stores the current Unix time in seconds. Reading the value and collecting the metric agree.",
  ["histories", "inputs"], "all sequences of operations and amounts, including negative, zero, huge, tiny, infinite and signed-zero amounts",
  "The tests sample a handful of values and short sequences (one or two operations each).",
  [C+"counter.cc", C+"gauge.cc"], [("negative guard", "Counter::Increment(double)"), ("Change/Set", "gauge.cc")],
  ["Value()", "Collect()"], [("value_", "current value", "Gauge")])
p("C03", "Histogram bucket counts, count and sum match the observations",
  "For every strictly increasing list of bucket boundaries and every sequence of observed values, the collected histogram reports for every boundary b the number of observations v with v <= b, reports one final +Inf bucket that equals the total number of observations (a NaN counts only there), and reports the sum of all observed values. Reported upper bounds are exactly the configured boundaries followed by one +Inf, and cumulative counts never decrease from bucket to bucket.",
  ["inputs", "histories"], "all boundary lists (including empty, negative, infinite ones) and all observation sequences",
  "The tests use two or three hand-picked boundary lists; the boundary/equality/ordering cases over arbitrary lists are not covered.",
  [C+"histogram.cc"], [("bucket search", "Histogram::Observe"), ("cumulation", "Histogram::Collect")],
  ["Histogram::Collect"], [("bucket_counts_", "per bucket counts", "Histogram"), ("sum_", "sum of observations", "Histogram")])
p("C04", "Bulk observation and reset are exact; rejected calls change nothing",
  "Observing in bulk with one non-negative whole increment per bucket (boundaries plus overflow) has the same effect on the buckets as that many single observations and adds the given sum; with any other number of increments it throws and leaves the histogram exactly as it was. Reset brings all buckets, count and sum to zero and leaves the boundaries in place. Constructing a histogram from boundaries that are not strictly increasing throws and adds nothing to a family.",
  ["inputs", "histories"], "all increment vectors of any length, all interleavings of bulk observation, single observation, reset and collection, all boundary lists of two or more entries",
  "One wrong length and one unsorted list are tested; that a rejected call has no partial effect is never asserted over histories.",
  [C+"histogram.cc", H+"histogram.h", C+"family.cc"], [("length check before mutation", "Histogram::ObserveMultiple"), ("Reset", "Histogram::Reset"), ("constructor check", "Histogram::Histogram")],
  ["Histogram::Collect", "exceptions"], [("bucket_counts_", "per bucket counts", "Histogram")])
p("C05", "A collected histogram is one consistent snapshot under concurrency",
  "When observations, bulk observations, resets and collections of one histogram run concurrently, every collected histogram equals the state after some set of completed calls in an order consistent with real time: buckets, count and sum all belong to the same instant. No observation is ever lost or counted twice.",
  ["schedules"], "all interleavings of concurrent calls on one histogram",
  "No test runs a histogram from two threads.",
  [C+"histogram.cc"], [("mutex around update and snapshot", "Histogram::Observe/ObserveMultiple/Reset/Collect")],
  ["Histogram::Collect"], [("mutex_", "protects buckets and sum together", "Histogram")])
p("C06", "Summary count and sum are exact and consistent, also under concurrency",
  "Over its whole lifetime (independent of the sliding window) a summary's collected count is the number of observations and its sum is the sum of the observed values. Under concurrent observations and collections every collected summary (count, sum and quantile values) is the state at one single instant consistent with real time, and no observation is lost or counted twice.",
  ["schedules", "histories"], "all interleavings of concurrent Observe/Collect calls, all observation sequences and collection points",
  "The tests observe two values from a single thread.",
  [C+"summary.cc", H+"summary.h"], [("mutex around count, sum and quantile state", "Summary::Observe/Collect")],
  ["Summary::Collect"], [("count_, sum_", "lifetime totals", "Summary")])
p("C07", "Summary quantiles follow the configured sliding time window",
  "With window length max_age divided into k age buckets, the quantiles reported at any time reflect every observation made during the preceding max_age*(k-1)/k and none made more than max_age earlier. They are NaN whenever no observation lies in the window, in particular before the first observation and after max_age without observations, and observing or collecting at any times (including after arbitrarily long pauses) does not disturb this.",
  ["histories", "configurations"], "all max_age and bucket configurations and all time-stamped sequences of observations and collections, including long gaps",
  "One test with one observation, two buckets and real sleeps; rotation over several buckets, long gaps and collection-driven rotation are not reached.",
  [C+"detail/time_window_quantiles.cc", C+"summary.cc"], [("rotation", "TimeWindowQuantiles::rotate"), ("insertion in all buckets", "TimeWindowQuantiles::insert")],
  ["Summary::Collect"], [("current_bucket_", "head bucket", "TimeWindowQuantiles"), ("last_rotation_", "time of last rotation", "TimeWindowQuantiles")])
p("C08", "Reported quantiles stay within the configured rank error",
  "For every configured quantile q with allowed error e, the value reported after n observations in the window is one of the observed values, and its rank (1..n, ties counted in its favour) differs from q*n by at most e*n + 1. This holds for every order of the observations, any duplicates, any number of configured quantiles and any interleaving with collections.",
  ["inputs", "histories"], "all observation orders and lengths, all quantile/error configurations with 0<=q<=1 and 0<=e<0.5, all collection points",
  "One test inserts 1..100000 in ascending order and collects once; other orders and intermediate collections behave differently.",
  [C+"detail/ckms_quantiles.cc", H+"detail/ckms_quantiles.h"], [("g/delta invariant", "CKMSQuantiles::insertBatch/compress"), ("query", "CKMSQuantiles::get")],
  ["Summary::Collect"], [("sample_", "compressed samples (g, delta)", "CKMSQuantiles"), ("buffer_", "not yet merged observations", "CKMSQuantiles")])
p("C09", "A family holds exactly one stable metric per label set",
  "Adding a metric with labels that are already present returns the very same object with its state untouched, different label sets (even with colliding hashes) always get distinct objects, and a returned reference stays valid until that metric is removed or the family destroyed, no matter what else is added or removed. Removing a metric removes exactly that one (null or unknown pointers remove nothing), membership queries agree with what was added and removed, and adding it again afterwards yields a fresh zero-valued metric.",
  ["histories", "inputs"], "all sequences of add, remove, query and update over any label sets, including colliding ones",
  "The tests perform one or two adds/removes; colliding hashes, rehashing and longer histories are not exercised.",
  [C+"family.cc", H+"family.h", C+"detail/utils.cc", C+"detail/hash.h"], [("map keyed by label set", "Family::Add/Remove/Has"), ("label hash", "LabelHasher")],
  ["Family::Add/Remove/Has", "object identity", "Collect"], [("metrics_", "label set -> metric", "Family")])
p("C10", "Rejected names and labels leave no trace",
  "Registering a family with an invalid metric name or invalid constant label name, and adding a metric with an invalid label name or one that duplicates a constant label, throws std::invalid_argument and leaves registry and family exactly as before: the rejected entry is not reported, not present, and the valid entries are untouched. A later valid call with the corrected arguments succeeds.",
  ["inputs", "histories"], "all label maps mixing valid and invalid names at any position, all states of the family/registry at the time of the rejected call",
  "Tests check that an exception is thrown, not that no partial effect remains for all positions and prior states.",
  [C+"family.cc", C+"registry.cc", C+"check_names.cc"], [("retroactive check with erase", "Family::Add"), ("constructor check", "Family::Family"), ("insert after construction", "Registry::Add")],
  ["exceptions", "Has", "Collect"], [("metrics_", "label set -> metric", "Family")])
p("C11", "A metric name belongs to one family in a registry",
  "At any time at most one family (of one type) with a given name is registered. Registering a name again returns the same family when behaviour is Merge and type and constant labels are equal, and otherwise (different type, different constant labels, or Throw behaviour) throws std::invalid_argument and changes nothing. Removing a family that is registered returns true, unregisters exactly that family and frees its name for any type; otherwise it returns false and changes nothing.",
  ["histories", "inputs"], "all sequences of registrations and removals over names, the five metric types, label sets and both insert behaviours",
  "Tests cover individual pairs of types; histories with removal and re-registration across all type pairs are not enumerated.",
  [C+"registry.cc", C+"detail/builder.cc"], [("cross type name check", "Registry::NameExistsInOtherType"), ("merge/throw", "Registry::Add"), ("removal", "Registry::Remove")],
  ["Builder::Register", "Registry::Remove", "Registry::Collect"], [("counters_ ... summaries_", "registered families per type", "Registry")])
p("C12", "Concurrent registry and family operations are linearizable",
  "When threads concurrently register and remove families, add, remove and query metrics and collect, the results of all calls (returned objects, exceptions, booleans, collected content) are those of some sequential order of the calls that respects real time; each family is collected as one consistent snapshot of its set of metrics, and the registry as one consistent snapshot of its set of families. In particular concurrent additions of the same label set or the same family all get the same object.",
  ["schedules"], "all interleavings of concurrent registry/family operations",
  "No test uses a registry or family from more than one thread.",
  [C+"registry.cc", C+"family.cc"], [("registry mutex", "Registry::Add/Remove/Collect"), ("family mutex", "Family::Add/Remove/Has/Collect")],
  ["public API results"], [("mutex_", "lock", "Registry, Family")])
p("C13", "Exactly the valid metric and label names are accepted",
  "A metric name is accepted if and only if it matches [a-zA-Z_:][a-zA-Z0-9_:]* and does not start with two underscores. A label name is accepted if and only if it matches [a-zA-Z_][a-zA-Z0-9_]*, does not start with two underscores, and is not 'le' for histograms or 'quantile' for summaries (both remain valid for other types). This holds for arbitrary byte strings, including the empty one, embedded NUL, control and non-ASCII bytes.",
  ["inputs"], "all byte strings, all five metric types",
  "The tests try about a dozen names out of an infinite input space.",
  [C+"check_names.cc", C+"family.cc"], [("CheckMetricName", "check_names.cc"), ("CheckLabelName", "check_names.cc")],
  ["CheckMetricName", "CheckLabelName", "Family::Add", "Builder::Register"])
p("C14", "Collecting reports every live metric exactly once, with its metadata",
  "Collecting a registry reports exactly one entry per registered family that has metrics, carrying the family's name, help text and type, and in it exactly one entry per live metric with exactly the constant labels plus the metric's own labels and its current value. Nothing removed, rejected or belonging elsewhere appears, and collecting changes nothing.",
  ["histories", "inputs"], "all registry contents (families of all types, constant labels, metric labels, values) and all histories leading to them",
  "Tests collect registries with one or two families.",
  [C+"registry.cc", C+"family.cc", C+"counter.cc", C+"gauge.cc", C+"info.cc"], [("CollectAll", "registry.cc"), ("CollectMetric", "Family::Collect")],
  ["Registry::Collect", "Family::Collect"], [("metrics_", "label set -> metric", "Family")])
p("C15", "The exposition text parses back to exactly the collected metrics",
  "The serialized text is well-formed Prometheus text format and parses back, by the format's own rules, to exactly the given families: same names, types, help texts, label names and values (any bytes, including quotes, backslashes and line feeds), timestamps and the complete set of samples of each metric (for histograms all buckets with one final +Inf bucket plus sum and count, for summaries all quantiles plus sum and count, info as a gauge with suffix _info). No sample is lost, duplicated or attributed to another family.",
  ["inputs"], "all lists of metric families of every type with valid names and arbitrary help texts, label values, timestamps and bucket/quantile lists",
  "The tests search for a few expected lines of single-metric families.",
  [C+"text_serializer.cc", C+"serializer.cc"], [("escaping", "WriteValue(std::string)/help"), ("per type writers", "Serialize*")],
  ["TextSerializer::Serialize"])
p("C16", "Numbers are exact to 16 digits in any locale and stream state",
  "Every finite sample value, boundary and quantile in the serialized text is a decimal number that differs from the true value by less than one unit in its 16th significant digit, integers (counts, timestamps) are written exactly, and infinities and NaN are written as +Inf, -Inf and Nan. The produced bytes are the same whatever locale, precision, format flags, fill or field width the target stream (or the global locale) has, and the stream's formatting state is unchanged afterwards.",
  ["inputs", "configurations"], "all double values including subnormal, extreme and special ones, all stream formatting states and locales",
  "The tests check about six numbers and one locale.",
  [C+"text_serializer.cc"], [("precision and classic locale", "TextSerializer::Serialize"), ("special values", "WriteValue(double)")],
  ["TextSerializer::Serialize"])
p("C17", "Concurrent use of metrics, families and registries is free of data races",
  "In every interleaving of calls to the documented thread-safe objects (counter, gauge, histogram, summary, info, family, registry), any two conflicting accesses to the same memory from different threads are both atomic or are ordered by synchronization. This includes the memory released by removal of metrics and families (other than ones the caller still uses).",
  ["schedules"], "all interleavings of concurrent calls on shared metrics, families and registries",
  "Tests are single threaded and not run under a race detector.",
  [C+"histogram.cc", C+"summary.cc", C+"family.cc", C+"registry.cc", C+"gauge.cc", C+"detail/time_window_quantiles.cc", C+"detail/ckms_quantiles.cc"], [("mutexes and atomics", "all classes")],
  ["memory accesses of the compiled library"])
p("C18", "Every call returns: no deadlock, no lock left held, no endless retry",
  "In every interleaving of concurrent calls to the metrics, families and registries, every call eventually returns or throws, provided the scheduler is fair. Calls that throw leave no lock held, so that later calls by any thread still complete.",
  ["schedules", "inputs"], "all interleavings of concurrent calls including throwing ones",
  "A deadlock needs an interleaving or an exception followed by further calls; the tests never continue on the same object from other threads.",
  [C+"registry.cc", C+"family.cc", C+"histogram.cc", C+"summary.cc", C+"gauge.cc"], [("RAII locks", "std::lock_guard"), ("lock order registry -> family -> metric", "Registry::Collect")],
  ["return of public calls"])
p("C19", "A scrape returns exactly the live collectables registered for its path",
  "A successful scrape of a path returns the serialized metrics of exactly those collectables that are registered for that path, not removed, and still alive, in addition to the endpoint's own self-metrics; nothing registered for other paths appears. Expired collectables disappear without affecting the others, removing one collectable leaves the others, a path is not served unless it is (or extends) a registered one, and each path can be registered and used independently at any time.",
  ["histories", "configurations"], "all sequences of register, remove, expire and scrape over several paths and collectables",
  "The integration tests register one or two collectables and check for substrings.",
  ["pull/src/handler.cc", "pull/src/endpoint.cc", "pull/src/exposer.cc", "pull/src/metrics_collector.cc"], [("collectables list", "MetricsHandler"), ("endpoint lookup", "Exposer::GetEndpointForUri")],
  ["HTTP responses"], [("endpoints_", "path -> endpoint", "Exposer"), ("collectables_", "registered collectables", "MetricsHandler")])
p("C20", "Scrapes concurrent with registration changes stay correct",
  "When scrapes run concurrently with registration, removal and destruction of collectables, every scrape contains every collectable that was registered and alive during the whole scrape and none whose removal or destruction completed before the scrape started or that was registered only after it ended. Every such scrape is a complete, well-formed response, a collectable is never destroyed while a scrape is still collecting from it, and every registration call returns once the scrapes in progress are done.",
  ["schedules"], "all interleavings of scrapes on several server threads with registration, removal and expiry",
  "The integration tests are sequential: one request at a time and no changes during it.",
  ["pull/src/handler.cc", "pull/src/metrics_collector.cc", "pull/src/exposer.cc"], [("collectables_mutex_", "MetricsHandler"), ("weak_ptr lock keeps object alive", "CollectMetrics")],
  ["HTTP responses", "collectable lifetime"])
p("C21", "Authentication gates every scrape of its path and only that path",
  "Once authentication is registered for a path, every request to it that does not carry Basic credentials accepted by the registered callback is answered 401 with a WWW-Authenticate challenge naming the realm (as a quoted string) and reveals no metrics, and no collectable is asked for data; accepted credentials get the scrape. Registering authentication again replaces callback and realm for later requests, and the other paths keep their own authentication (or none; a path without its own that extends an authenticated one shares that one's).",
  ["histories", "inputs"], "all sequences of authentication (re)registration and requests with any Authorization header over several paths",
  "The tests cover one path with one callback and a few fixed headers.",
  ["pull/src/basic_auth.cc", "pull/src/endpoint.cc", "pull/src/exposer.cc"], [("authorize", "BasicAuthHandler"), ("handler registration", "Endpoint::RegisterAuth")],
  ["HTTP responses", "callback invocations"])
p("C22", "Credentials are decoded exactly; malformed ones never reach the callback",
  "For a request with a well-formed Basic Authorization header the callback receives exactly the user name (everything before the first colon) and password (everything after it) that the client encoded, for arbitrary bytes including colons in the password, empty parts, NUL and non-ASCII bytes. A missing header, another scheme, invalid base64 (bad symbols, length or padding) or decoded text without a colon is refused with 401 and the callback is not called.",
  ["inputs"], "all Authorization header values",
  "The tests try a handful of headers.",
  ["pull/src/basic_auth.cc", "util/include/prometheus/detail/base64.h"], [("prefix check, decode, split", "BasicAuthHandler::AuthorizeInner")],
  ["arguments of the auth callback", "HTTP status"])
p("C23", "Scrape responses are correctly framed, plain or gzip, for any body size",
  "Every successful scrape is answered with status 200, a text/plain content type and a Content-Length equal to the number of body bytes sent. If and only if the request's Accept-Encoding offers gzip the body is gzip encoded and labelled so, and it decompresses to exactly what the plain response would contain, for bodies of any size from one family to many megabytes and for consecutive requests on one connection.",
  ["inputs", "configurations"], "all body contents and sizes, with and without gzip, on new and reused connections",
  "One test checks a small gzip response; sizes around and beyond internal buffers and keep-alive are not tested.",
  ["pull/src/handler.cc"], [("WriteResponse", "handler.cc"), ("GZipCompress", "handler.cc")],
  ["raw bytes on the connection"])
p("C24", "Exposer self-metrics account for every scrape exactly",
  "Each endpoint's exposer_scrapes_total equals the number of scrapes it completed before the current one, exposer_transferred_bytes_total equals the sum of the body bytes (as sent, compressed or not) of those scrapes, and the count of exposer_request_latencies equals the number of scrapes with a non-negative sum. Requests that were refused, or served by other endpoints, do not count.",
  ["histories"], "all sequences of plain, compressed, unauthorized and unknown-path requests over several endpoints",
  "One test checks that two counters are non-zero-ish after one scrape.",
  ["pull/src/handler.cc"], [("self metrics", "MetricsHandler::handleGet")],
  ["HTTP responses"], [("bytes_transferred_, num_scrapes_, request_latencies_", "self metrics", "MetricsHandler")])
p("C25", "Reconfiguration and shutdown are safe while requests are in progress",
  "Registering or replacing authentication, registering or removing collectables, and destroying the exposer while requests are being authorized or served never crashes or touches freed memory, lets scrapes that are already collecting finish with a complete response, and always returns. After destruction no callback or collectable is used any more and the port is released.",
  ["schedules", "histories"], "all placements of a reconfiguration or destruction relative to requests being authorized, collecting or writing",
  "No test changes or destroys an exposer while a request is in progress.",
  ["pull/src/exposer.cc", "pull/src/endpoint.cc", "pull/src/basic_auth.cc"], [("handler removal and server stop order", "Endpoint::~Endpoint, Exposer::~Exposer"), ("auth handler lifetime", "Endpoint::RegisterAuth")],
  ["memory safety", "HTTP responses", "call returns"])
p("C26", "Gateway requests carry the right method, URL and body",
  "Push sends one POST and PushAdd one PUT per live registered collectable, in registration order, to <base>/metrics/job/<job> followed by that collectable's own grouping labels, with the serialized metrics of that collectable as body and the text-format content type; expired collectables are skipped. Delete sends one DELETE without body to the job URL and DeleteForInstance one to the job URL plus the gateway's labels. The asynchronous variants send the same requests.",
  ["histories", "configurations"], "all sequences of registration, expiry and the eight operations, all base URLs (with and without trailing slash), jobs and labels",
  "There is no test that performs a push.",
  ["push/src/gateway.cc", "push/src/detail/curl_wrapper.cc"], [("push/async_push/Delete", "gateway.cc"), ("performHttpRequest", "curl_wrapper.cc")],
  ["HTTP requests received by a server"], [("collectables_", "registered collectables with grouping labels", "Gateway")])
p("C27", "Push results tell success and failure truthfully",
  "An operation reports 200 (synchronous and asynchronous push) respectively the HTTP status (delete) if every request was answered with a status in 100..399, and otherwise the failing HTTP status, or a negative error code if the server could not be reached or did not answer properly. A synchronous push stops at the first failing request, an asynchronous push sends all of them; a failure does not affect later operations.",
  ["fault_sequences", "histories"], "all sequences of server answers (any status, connection refused, closed or broken connections) over multi-collectable pushes and deletes",
  "No test exercises a failing or succeeding push.",
  ["push/src/gateway.cc", "push/src/detail/curl_wrapper.cc"], [("status evaluation", "Gateway::push/async_push"), ("error mapping", "CurlWrapper::performHttpRequest")],
  ["return values and futures"])
p("C28", "Every job name and label value reaches the server as its grouping key",
  "For every job name and every grouping label value (arbitrary bytes, including empty, slashes, dots, spaces, percent and non-ASCII), the path of the request that arrives at the server, decoded by the Pushgateway's rules (plain segments, or base64url for names with suffix @base64), yields exactly the given job and labels, with nothing lost, merged or added. Different grouping keys never lead to the same path.",
  ["inputs"], "all job names and label maps with valid label names and arbitrary values",
  "The tests encode four label values and never look at what is sent.",
  ["push/src/detail/label_encoder.cc", "push/src/gateway.cc", "util/include/prometheus/detail/base64.h"], [("encodeLabel", "label_encoder.cc"), ("base64url_encode", "base64.h")],
  ["request path received by a server"])
p("C29", "A gateway can be used from several threads at once",
  "When pushes, deletions, registrations, header additions and asynchronous operations on one gateway overlap, every request that is sent is exactly one of the requested operations with its own method, URL, headers and body (never a mixture), every operation's requests are sent exactly once, and every caller and future gets the result of its own requests. All calls complete.",
  ["schedules"], "all overlaps of synchronous and asynchronous operations and registrations on one gateway",
  "There is no test of concurrent or asynchronous gateway use.",
  ["push/src/gateway.cc", "push/src/detail/curl_wrapper.cc"], [("request mutex", "CurlWrapper::performHttpRequest"), ("collectables mutex", "Gateway")],
  ["HTTP requests received by a server", "return values"], [("curl_", "shared connection handle", "CurlWrapper")])
p("C30", "Credentials and custom headers accompany every gateway request",
  "If a gateway was created with a user name, every request it ever sends (any operation, any order, after failures and server restarts) carries exactly these Basic credentials, and without user name none. Every header added with AddHttpHeader is part of every later request (and none before), the text-format content type header is always present, and a setup callback is applied to every request.",
  ["histories", "configurations"], "all sequences of operations and header additions with any credentials or setup callback",
  "No test sends a request.",
  ["push/src/gateway.cc", "push/src/detail/curl_wrapper.cc"], [("presetupCurl_ after reset", "CurlWrapper::performHttpRequest"), ("header list", "CurlWrapper::addHttpHeader")],
  ["HTTP requests received by a server"], [("optHttpHeader_", "headers of each request", "CurlWrapper")])
p("C31", "Base64 decoding inverts encoding and rejects everything malformed",
  "For every byte string, base64 encoding yields the standard padded encoding and decoding it yields the original bytes; the URL-safe encoding differs only by using '-' and '_' for '+' and '/'. Decoding throws for every input that is not well-formed: a length that is no multiple of four, any symbol outside the alphabet, or padding anywhere but in the last one or two positions.",
  ["inputs"], "all byte strings as input of encoder and decoder",
  "The tests use the RFC vectors and three malformed inputs.",
  ["util/include/prometheus/detail/base64.h"], [("base64_encode", "base64.h"), ("base64_decode", "base64.h")],
  ["base64_encode", "base64url_encode", "base64_decode"])
p("C32", "Exposers listen exactly where told and are independent of each other",
  "Constructing an exposer with a list of addresses and a positive number of threads either succeeds, and then it listens on all of them, GetListeningPorts always reports their ports in that order (the actual one where port 0 was asked), and at least that many requests (2 by default) are worked on at the same time; or, if an address is malformed or already in use, it throws and no port stays taken. Both constructors agree. Several exposers in one process are independent: each answers with its own registrations, authentication and self-metrics only, also for the same paths, callbacks or collectables, and whatever is done to the others, including their destruction, after which their ports are refused and can be used again.",
  ["histories", "configurations"], "all lists of addresses, numbers of threads, sequences of constructing, using and destroying exposers",
  "The tests construct one exposer per process on one address.",
  ["pull/src/exposer.cc", "pull/src/endpoint.cc", "pull/src/handler.cc"], [("server options", "Exposer::Exposer"), ("GetListeningPorts", "Exposer"), ("GetEndpointForUri", "exposer.cc")],
  ["construction results", "GetListeningPorts", "HTTP responses on every address"], [("endpoints_", "endpoints of this exposer", "Exposer"), ("server_", "its web server", "Exposer")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
