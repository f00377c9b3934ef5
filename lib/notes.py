SEQ = "TLA+ specification (%s): model checked with TLC, its behaviours replayed into the library, recorded executions validated against it (trace validation)"
CONC = "TLA+ specification (%s): executions of the real code under a controlled scheduler (all one-preemption and many two-preemption and random schedules of generated programs) validated against it with TLC"
NOTES = dict(
 C01=(CONC % "Core.tla, LinTrace.tla", "Sampled programs (2-4 threads, a few calls each); schedules at every access to shared memory, sequentially consistent (races are C17's subject)."),
 C05=(CONC % "Core.tla, LinTrace.tla", "As C01, for histograms."),
 C06=(CONC % "Core.tla, Window.tla, LinTrace.tla", "As C01, for summaries, with the quantiles of each collection; plus long sequential runs."),
 C07=(SEQ % "Window.tla", "Model exhaustive in small time grids; sampled time lines under a virtual clock beyond it."),
 C08=(SEQ % "Window.tla", "Sampled observation orders, sizes up to tens of thousands, and quantile configurations."),
 C12=(CONC % "Core.tla, LinTrace.tla", "As C01, for families and registries; a collection reads each family and each metric at an instant of its own."),
 C13=(SEQ % "Names.tla", "Exhaustive for short names over class representatives and all single bytes; sampled names beyond."),
 C15=(SEQ % "Exposition.tla: the text format's grammar as a parser in TLA+", "Sampled metric families with arbitrary bytes and numbers; the small grammar model is exhaustive."),
 C16=(SEQ % "Decimal.tla, Exposition.tla: exact decimal arithmetic in TLA+", "Sampled doubles of all exponents and edge values; locales installed in the sandbox plus constructed facets."),
 C17=("TLA+ specification of happens-before (Race.tla): access logs of the real code under a controlled scheduler validated against it with TLC", "Sampled programs and schedules; accesses made inside libc/libstdc++ binaries are observed only where wrapped."),
 C18=(CONC % "Calls.tla", "As C01; includes calls that throw and failing allocations. Endless retry is a bound of 400000 steps under a fair scheduler."),
 C31=(SEQ % "Base64.tla", "Exhaustive for short strings over class representatives; sampled strings beyond."),
 C19=(SEQ % "Exposer.tla", "Model exhaustive for two paths, two collectables and a few calls; sampled histories beyond. Real HTTP over loopback."),
 C20=("TLA+ specification (ExposerConc.tla; a model of the algorithm, MCExposerConc.tla, is checked against it with TLC): behaviours simulated with TLC are replayed into the real exposer with gated collectables, and the recorded logs validated against the specification", "Placements of changes relative to collections are steered through gates in the collectables; finer interleavings inside the library are sampled by real threads."),
 C21=(SEQ % "Exposer.tla", "As C19, with authentication; model exhaustive over five kinds of headers."),
 C22=(SEQ % "Exposer.tla, Base64.tla", "Every byte in user and password, every byte in every position of a quartet, and sampled headers."),
 C23=(SEQ % "Exposer.tla", "Sizes sampled densely around buffer sizes and up to 20 MB; gzip bodies of exactly 1, 2 and 3 output buffers."),
 C24=(SEQ % "Exposer.tla", "Sampled histories; with several server threads the exact values are required in the end, bounds before."),
 C25=("TLA+ specification (ExposerConc.tla; a model of the algorithm, MCExposerConc.tla, is checked against it with TLC): behaviours simulated with TLC are replayed into the real exposer, built with AddressSanitizer, with gated collectables and callbacks, and the recorded logs validated against the specification", "As C20; includes clients that do not read what they are sent."),
 C26=(SEQ % "Gateway.tla, GroupKey.tla", "Model exhaustive for two collectables and two failures; sampled histories beyond. Real libcurl against a scripted server."),
 C27=(SEQ % "Gateway.tla", "Model exhaustive for two collectables and two failures; every status 200..599 and five kinds of broken answers, sampled histories beyond."),
 C28=(SEQ % "GroupKey.tla: the Pushgateway's reading of a path in TLA+", "Every single byte, pairs of special bytes and sampled values up to 3000 bytes."),
 C29=("TLA+ specification (GatewayConc.tla; a model of the algorithm, MCGatewayConc.tla, is checked against it with TLC): behaviours simulated with TLC are replayed into the real client with gated collectables and server answers, and the recorded logs validated against the specification", "Coincidences are steered through gates in the collectables and in the server; finer interleavings inside the library are sampled by real threads."),
 C32=(SEQ % "Listening.tla, Exposer.tla", "Model exhaustive for two exposers, two ports and a few calls; sampled histories beyond. IPv4 loopback addresses."),
 C30=(SEQ % "Gateway.tla", "Sampled histories with failures and server restarts; model behaviours with one header."),
)
