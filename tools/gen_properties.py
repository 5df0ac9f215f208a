#!/usr/bin/env python3
# Writes ../properties.jsonl (kept as a generator because the file is one JSON object per line).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=list(observe), hook_needed=hook)))

DC = "directive/controller/"
p("C01", "Equivalent directives share one instance; superseding ones replace",
  "While a directive is live on a bus, adding an equivalent directive that does not supersede it joins the live instance (same instance, handlers are not offered it a second time), and directives that are not equivalent never share an instance. Adding a directive that supersedes live equivalent ones disposes every one of those and nothing else, and the new directive becomes the live instance. Once calls have returned, the live directives never contain two equivalent ones, a disposed instance is never handed out as the result of an add, and instance bookkeeping survives any order of adds, supersessions, releases and closes.",
  ["histories", "schedules"], "every history of directive adds (equivalent, superseding, unrelated, non-comparable), releases and closes, from any number of goroutines, including adds made from inside callbacks and handlers",
  "The existing tests add at most a handful of directives sequentially; de-duplication races and multi-match supersession depend on the interleaving with unlocked callback windows.",
  ["directive/controller/controller.go", "directive/directive.go"],
  [("AddDirective equivalence scan", DC+"controller.go"), ("removeLocked", DC+"instance.go")],
  [("Controller.dir", "live instances", DC+"controller.go")], ["AddDirective result", "GetDirectives", "HandleDirective calls", "HandleInstanceDisposed"])
p("C02", "Each reference sees exactly the attached values, once each, in order",
  "Each reference to a directive is told of each value accepted from a resolver exactly once as added, under the ID and value the resolver got it accepted with, values attached before the reference was added being replayed to it, and exactly once as removed if the value goes away while the reference is held, never before it was added. Value IDs start at 1, are never reused within an instance, and newly accepted values reach every reference in increasing ID order. Whenever activity settles, the set of values a held reference has been told of equals exactly the set of values attached to the directive.",
  ["histories", "schedules"], "every sequence of value adds, removals, clears, resolver exits, handler removals and reference adds and releases, over every interleaving of resolver goroutines and callbacks",
  "Tests observe one reference and one or two values; loss, duplication or reordering needs several references attaching while values come and go and callbacks are queued.",
  ["directive/controller/instance.go", "directive/controller/resolver-handler.go", "directive/controller/value.go", "directive/controller/reference.go"],
  [("addValueLocked / removeValueLocked / onValuesRemovedLocked", DC+"instance.go"), ("callCallbacksLocked queue", DC+"instance.go")],
  [("resolver.vals", "attached values per resolver", DC+"resolver.go")], ["HandleValueAdded", "HandleValueRemoved", "AddValue/RemoveValue/ClearValues/CountValues results"])
p("C03", "A directive lives exactly as long as its strong references require",
  "A directive stays live while any strong reference to it is held and is disposed when the last strong reference is released: at once, or after the unreferenced grace period it asked for (at once if it asked for immediate disposal when empty and has no values), with a strong reference taken within the grace period keeping it alive. Weak references receive values like any other but neither keep a directive alive nor cause its disposal. Close always disposes, and CloseIfUnreferenced disposes exactly when no strong reference (or, with the flag, no reference at all) is held and reports whether the instance is closed; releasing a reference twice has no further effect.",
  ["histories", "schedules"], "every sequence of strong/weak reference adds, releases (also repeated), Close, CloseIfUnreferenced and passages of time, for every combination of dispose options",
  "Tests never exercise the grace timer, weak references or re-referencing; they depend on timing and long histories.",
  ["directive/controller/instance.go", "directive/controller/reference.go"],
  [("handleUnreferencedLocked / handleReferencedLocked", DC+"instance.go"), ("CloseIfUnreferenced", DC+"instance.go")],
  [("refs", "references, weak first", DC+"instance.go"), ("destroyTimer", "grace timer", DC+"instance.go")], ["instance context", "GetDirectives", "HandleInstanceDisposed"])
p("C04", "Disposal is complete, announced exactly once, and final",
  "When a directive instance is disposed for any reason (last reference released, Close, grace period over, superseded), its context is cancelled, it leaves the list of live directives, its resolvers are cancelled, and its remaining values are reported removed to still-held references before disposal is reported; each dispose callback still registered and each reference still held is told of the disposal exactly once. A dispose callback, idle callback or reference released beforehand is not told once its release has taken effect, and nothing further is reported after disposal. A reference or dispose callback added to an already disposed instance is told of the disposal exactly once and receives no values.",
  ["histories", "schedules"], "every way and moment of disposal, against any registered/released set of callbacks and references and any in-flight handler, resolver or callback",
  "Tests dispose an idle instance once; duplicated, lost or late notifications depend on registration order and on what is in flight.",
  ["directive/controller/instance.go", "directive/controller/callback.go"],
  [("removeLocked", DC+"instance.go"), ("removeFromCallbacks", DC+"callback.go")],
  [("rels/idles", "registered callbacks", DC+"instance.go")], ["AddDisposeCallback", "HandleInstanceDisposed", "GetContext"])
p("C05", "Value limits stop and restart resolvers and hard limits hold",
  "When a directive declares a maximum number of values and that many are attached, its resolvers that hold no values and are still working (not marked idle) are cancelled and the directive becomes idle, while resolvers holding values are kept. A hard limit is never exceeded: further values are rejected; with a soft limit a value offered by a still-running resolver is accepted. When removals bring the count below the limit again, resolvers stopped because of the limit, and those which had failed, are started again so the directive can refill.",
  ["histories", "schedules"], "every sequence of value adds and removals by any number of resolvers around the limit, limits 1..n, hard and soft",
  "No test uses a value limit with more than one resolver, nor drops below the limit again.",
  ["directive/controller/instance.go", "directive/controller/resolver.go"],
  [("handleFullLocked / handleNotFullLocked / checkFullLocked", DC+"instance.go")],
  [("full", "at or above the cap", DC+"instance.go"), ("stopped", "resolver stopped by the cap", DC+"resolver.go")], ["AddValue result", "resolver context", "Resolve restarts", "idle callbacks"])
p("C06", "Idle state is reported truthfully and completely",
  "A directive is idle exactly when all handlers present at its creation have been offered it and none of its resolvers is running without having been marked idle (by itself, or by the directive reaching its value limit). An idle callback is told the current state when registered and afterwards every change in order (and again when a resolver fails while the directive is idle), so the state it was told last equals the true state whenever activity settles; it is never told idle while the initial handlers are still being offered the directive. The errors passed, and those listed on request, are exactly the errors of resolvers that exited with one and have not been restarted or removed.",
  ["histories", "schedules"], "every interleaving of idle-callback registration and release with handler offers, resolver start/exit/MarkIdle, handler removal and value-limit stops",
  "One test (TestMarkIdle) checks a single resolver sequence; waiting callers hang or give up wrongly only in races with handler registration.",
  ["directive/controller/instance.go", "directive/controller/resolver.go", "directive/controller/controller.go"],
  [("handleIdleStateLocked", DC+"instance.go"), ("setIdleLocked", DC+"resolver.go"), ("ready flag", DC+"controller.go")],
  [("idle", "last reported state", DC+"instance.go"), ("ready", "initial handlers called", DC+"instance.go")], ["AddIdleCallback", "GetResolverErrors"])
p("C07", "Every handler is offered every live directive exactly once",
  "Every registered handler is offered every live directive exactly once, whether the handler or the directive came first or both came at the same moment, and the resolvers it returns are all started unless the directive or the handler is gone by then. An error or panic from one handler does not affect what other handlers are offered or resolve. Removing a handler (once or repeatedly) means it is offered nothing added later, its resolvers (also ones it was just returning) are cancelled and their values removed, and the resolvers and values of other handlers are untouched.",
  ["histories", "schedules"], "every interleaving of adding and removing handlers with adding and disposing directives, with handlers that error, panic, block or re-enter the bus",
  "Tests add handlers before directives, sequentially; the copy-then-unlock windows are never overlapped.",
  ["directive/controller/controller.go", "directive/controller/instance.go", "directive/controller/handler.go"],
  [("AddDirective / AddHandler snapshot and attach", DC+"controller.go"), ("removeHandlerLocked", DC+"controller.go")],
  [("hnd", "registered handlers", DC+"controller.go")], ["HandleDirective calls", "Resolve starts", "resolver context", "values"])
p("C08", "Resolver executions, children and removal callbacks obey their lifecycle",
  "A resolver is never executed twice at the same time, its context is cancelled when it, its handler or its directive is removed or it is stopped, and an execution whose context was cancelled by the bus can no longer add values, while values of a resolver that returned stay attached until removed. A child resolver runs like any other and is removed when it is released early, or when the handler or directive goes away. A value-removed, resolver-removed or child-removed callback is called exactly once when the thing it watches goes away for whatever reason (right away if it is already gone), and never once it has been released.",
  ["histories", "schedules"], "every interleaving of resolver start, exit, error, stop, restart, child creation and callback registration/release with removals",
  "Only one child/callback path is touched by tests; exactly-once under races of removal with release is not.",
  ["directive/controller/resolver.go", "directive/controller/resolver-handler.go", "directive/controller/instance.go"],
  [("updateContextLocked / executeResolver", DC+"resolver.go"), ("addValueRemovedCallbackLocked etc.", DC+"instance.go")],
  [("exitedCh", "execution chain", DC+"resolver.go")], ["Resolve entry/exit", "AddValue results", "callbacks"])
p("C09", "Callbacks are serialised, may re-enter the bus, and panics are contained",
  "For one directive instance no two of its reference, idle, dispose or removal callbacks triggered by state changes run at the same time, and they run in the order of the changes they report. A callback, handler or resolver may call back into the bus (add or release references, directives, handlers, callbacks, close instances, list) without deadlock. A panic in a callback or handler is contained: the remaining callbacks and handlers still run, the instance stays usable, and a panicking controller is turned into an error and removed.",
  ["schedules", "programs", "fault_sequences"], "every program of re-entrant calls and panics placed in any callback, handler, resolver or controller, with any concurrent activity",
  "No existing test re-enters the bus from a callback or panics in one.",
  ["directive/controller/instance.go", "bus/inmem/inmem.go"],
  [("callCallbacksLocked", DC+"instance.go"), ("handlePanic", DC+"instance.go"), ("handleControllerPanic", "bus/inmem/inmem.go")],
  [("callingRefCbs/refCbs", "callback queue", DC+"instance.go")], ["callback entry/exit", "API return"])
p("C10", "Concurrent use is race-free, deadlock-free and leaves nothing behind",
  "Any concurrent mix of bus operations by controllers, handlers, resolvers and clients executes without a data race, crash or deadlock. When every reference, handler and controller has been released and contexts cancelled, no directive, handler, controller, resolver execution or goroutine started by the bus remains.",
  ["schedules", "histories"], "every schedule of concurrent clients over the bus, loader, config-set and one-off/watch helpers",
  "The test suite is nearly sequential and does not run under the race detector.",
  ["directive/controller", "bus", "controller/loader", "controller/configset/controller", "controller/resolver", "plugin"],
  [("c.mtx", DC+"controller.go"), ("b.mtx", "bus/inmem/inmem.go"), ("config set controller locks", "controller/configset/controller")],
  [], ["race detector", "goroutine listing at quiescence", "GetDirectives/GetControllers"])
p("C11", "One-off execution returns a right answer and owns its reference correctly",
  "Executing a one-off, waiting or collecting helper on a directive returns a currently or recently attached value that has the requested type and passed the filter or transform (for collecting: exactly the values attached at an idle moment, at least one if asked) if there is one, otherwise returns the idle callback's decision, the first relevant resolver or filter error, an error on disposal of the directive, or a cancellation error once the context is cancelled; it never blocks past the point where one of these holds. On success the caller holds a live reference until it releases it and is told if the returned value goes away; on error, or when nothing is returned, no reference is left behind.",
  ["histories", "schedules", "fault_sequences"], "every timing of values, wrong-typed values, idle changes, resolver errors, filter errors, disposal and cancellation relative to the call",
  "Tests call ExecOneOff only on the happy path.",
  ["bus/oneoff.go", "bus/wait.go", "bus/multi.go", "bus/refcount.go"],
  [("ExecOneOffWithFilter", "bus/oneoff.go"), ("ExecCollectValues", "bus/multi.go"), ("NewOneOffRefCountResolver", "bus/refcount.go")],
  [], ["return values", "reference counts via disposal", "valDisposeCallback"])
p("C12", "Watch helpers track the value set faithfully",
  "A one-value watcher (callback, container, channel, latest, routine, effect, select, transform-effect) always shows, once activity settles, one currently attached value of the right type that it has not rejected (for selecting watchers the one the selection function picks from all attached values in ascending ID order) or unset when there is none, and reports each change of selection once. An each-value watcher runs its effect once per attached (and accepted by the transform) value and the returned cleanup exactly once when the value goes away or the directive is disposed. No effect is active for a value that is gone.",
  ["histories", "schedules"], "every sequence of value adds, removals, rejections, wrong-typed values, transform delays and errors, and disposal",
  "Tests never use most watch helpers, and never with several values.",
  ["bus/watch.go", "directive/typed-callback-handler.go"],
  [("ExecOneOffWatchCb", "bus/watch.go"), ("ExecOneOffWatchSelectCb", "bus/watch.go"), ("ExecWatchTransformEffect", "bus/watch.go")],
  [], ["callback sequence", "container/channel contents", "effect/cleanup calls"])
p("C13", "Forwarded and transformed values mirror their source",
  "A pass-through, transforming or bridging resolver shows on the receiving directive, once activity settles, exactly the values attached to the source directive (mapped through the transform, minus those it declines or the receiver rejects), each under its own ID and removed when its source is removed. When the source is disposed or the forwarding ends, the forwarded values and the reference on the source go away with the receiving resolver. A bridge forwards each matching directive once and never loops it back.",
  ["histories", "schedules"], "every sequence of source value adds and removals with interleaved receiver-side values, restarts, cancellations and disposal",
  "No test forwards more than one value or removes a forwarded value.",
  ["bus/passthru.go", "bus/transform.go", "bus/bridge/bridge.go", "bus/bridge/resolver.go", "directive/transform-resolver.go", "directive/typed-transform-resolver.go"],
  [("idMapping", "bus/passthru.go"), ("BusBridgeResolver.Resolve", "bus/bridge/resolver.go"), ("TransformResolver", "directive/transform-resolver.go")],
  [], ["receiver view vs source view", "references on the source"])
p("C14", "Resolver adapters publish their source and release what they acquired",
  "The ready-made resolvers (value, getter, access, keyed-getter, ref-count, keyed ref-count, retry, unique list/map, watchable, function) publish exactly what their source currently provides: the fixed values, the latest accessed/watched/looked-up value with the stale one removed first, or the de-duplicated set keyed by the caller's key with changed entries replaced. Each thing acquired from the source is released exactly once when its value goes away, is replaced, rejected, or the resolver is cancelled. Errors are returned or retried as documented, with at most one value per current source value at any time.",
  ["histories", "schedules", "fault_sequences"], "every sequence of source changes, releases, errors, cancellations and restarts, and every order of release versus publish",
  "Two adapters have one small test each.",
  ["directive/value-resolver.go", "directive/getter-resolver.go", "directive/access-resolver.go", "directive/keyed-getter-resolver.go", "directive/refcount-resolver.go", "directive/keyed-refcount-resolver.go", "directive/resolver-retry.go", "directive/unique-list-resolver.go", "directive/unique-map-resolver.go", "directive/watchable-resolver.go", "directive/watchable-transform-resolver.go", "directive/func-resolver.go"],
  [("adapter Resolve methods", "directive/*-resolver.go")], [], ["values on the directive", "acquire/release calls on the source"])
p("C15", "Controllers on a bus are executed, listed and removed consistently",
  "A controller added to a bus receives directives (including those already live) from before its execution starts until it is removed, is executed exactly once with a context cancelled on release, and is listed exactly while attached. If it fails or panics the error is reported exactly once and the controller is removed so that it receives nothing more and its resolvers and values are gone; if it returns without error it stays attached until removed. Removing one controller leaves all others attached, listed and served.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of adding, executing, failing, panicking, releasing and removing any number of controllers with live directives",
  "Tests attach one or two controllers and never fail one.",
  ["bus/inmem/inmem.go", "bus/bus.go", "core/core.go"],
  [("AddController / ExecuteController / removeController", "bus/inmem/inmem.go")],
  [("controllers", "attached controllers", "bus/inmem/inmem.go")], ["GetControllers", "exit callback", "HandleDirective calls", "directive values"])
p("C16", "The loader runs one controller per config and retries failures",
  "While a request to execute a controller is live the loader has at most one running instance of the controller for it, built from the given factory and config, and reports its state: the running controller, or the error together with the time of the next try. A controller that fails to construct is constructed anew, and one that fails or panics while executing is removed from the bus and executed again (the same instance, not constructed anew), each after the configured backoff and until the backoff gives up; one that exits cleanly stays attached until the request ends. When the request ends or the retries stop, the controller's context is cancelled and each constructed controller is closed exactly once, never while it executes, and removed, and nothing is retried. Waiting for the controller returns the running controller or the reported error; who waited is told, once, when the returned controller stops running or the request is disposed.",
  ["histories", "fault_sequences", "schedules"], "every sequence of construct failures, run failures, panics, clean exits and request cancellations, for all backoff settings",
  "Tests load a controller that never fails.",
  ["controller/loader/loader-resolve.go", "controller/loader/dir-exec-controller.go", "controller/loader/ex-load-controller.go", "controller/loader/loader.go"],
  [("resolver.Resolve", "controller/loader/loader-resolve.go"), ("WaitExecControllerRunning", "controller/loader/ex-load-controller.go")],
  [], ["Construct/Execute/Close calls", "ExecControllerValue stream", "virtual time of retries"])
p("C17", "Config and factory lookups resolve to the right factory",
  "Looking up a config constructor by ID, a factory by config or a controller by config yields the registered factory for exactly that config ID, the highest version when several are registered, and nothing when none is; registering more factories never changes which other IDs resolve. The controller loaded for a config is constructed by that factory with a config equal to the one given and retried with the backoff given, equal configs share one load and different configs do not. When the request ends, or the resolver which found the factory is removed, what was loaded through it is closed and removed. A request names what it asks for, is equivalent to another exactly if both ask for the same, every resolver attached to it is asked until it has a value, and its validation rejects missing or invalid arguments.",
  ["inputs", "histories", "schedules"], "every set of registered factories (IDs, versions, order of registration), concurrent registration and lookup, and every config",
  "Tests register one version of one or two factories.",
  ["controller/resolver/static/static.go", "controller/resolver/res-load-factory.go", "controller/resolver/res-load-config-ctor.go", "controller/resolver/res-load-with-config.go", "controller/resolver/dir-load-config-ctor.go", "controller/resolver/dir-load-factory-by-config.go", "controller/resolver/dir-load-controller.go", "config/config.go"],
  [("static.Resolver", "controller/resolver/static/static.go"), ("LoadControllerWithConfig", "controller/resolver/res-load-with-config.go")],
  [], ["lookup results", "Construct calls"])
p("C18", "Applied config sets converge to the highest revision of each key",
  "For each key of the applied config sets the config-set controller runs exactly one controller, with the highest-revision config applied so far (a lower or equal revision never replaces a running one, a higher one restarts it), as long as some applied set references the key, and stops it once none does (keys with equal configs share the loaded controller). Whoever applies or looks up a key is told its current state at once and every later change, ending in the true state when activity settles; a lookup may precede the first apply and starts nothing, but keeps what an apply started running until it is released, as documented. An invalid config or a failing controller affects only its own key.",
  ["histories", "schedules", "fault_sequences"], "every history of applies, releases and lookups over any keys and revisions, with failing configs and controllers, under any interleaving",
  "Tests apply one config set once.",
  ["controller/configset/controller/controller.go", "controller/configset/controller/running-ctrl.go", "controller/configset/controller/running-ctrl-ref.go", "controller/configset/controller/apply-config-set.go", "controller/configset/controller/lookup-config-set.go"],
  [("PushControllerConfig", "controller/configset/controller/controller.go"), ("runningController.Execute", "controller/configset/controller/running-ctrl.go")],
  [("controllers", "running controllers by key", "controller/configset/controller/controller.go")], ["Construct/Execute/Close calls", "ApplyConfigSet/LookupConfigSet values"])
p("C19", "Config sets survive encoding, decoding and merging",
  "Encoding a config set or controller config to protobuf, JSON or YAML and decoding and resolving it yields the same keys, revisions, config IDs and equal configs, for binary and JSON config bodies alike; malformed input, or a config which cannot be encoded, gives an error, never a crash or a silently different set. Merging config sets yields for each key a config of the highest revision, the later one on ties, without modifying its inputs; equality and debug renderings depend only on content.",
  ["inputs"], "every config set (keys, revisions, config contents), every mix of encodings, and every malformed input",
  "Tests use one or two fixed documents.",
  ["controller/configset/proto/config.go", "controller/configset/proto/configset.go", "controller/configset/json/config.go", "controller/configset/json/configset.go", "controller/configset/json/controller-config.go", "controller/configset/configset.go", "controller/configset/util.go", "directive/proto", "config"],
  [("ControllerConfig.Resolve / NewControllerConfig", "controller/configset/proto"), ("MergeConfigSets", "controller/configset/util.go")],
  [], ["decoded sets", "errors", "recovered panics"])
p("C20", "Execution requests and the bus API report faithful status",
  "Executing a controller-execution request applies exactly the config set it describes (the proto configs, and the YAML configs of the other keys, or of all keys if overwriting is requested; when partial success is allowed, proto configs which cannot be resolved are reported as errors and the rest is applied) and reports, per key and in order, its progress to configuring, running or error and the error text, until cancelled; when the request ends, nothing it applied keeps running because of it. An invalid request is rejected with an error and applies nothing. The bus API, also across its RPC transport, lists exactly the live controllers and directives, refuses execution unless enabled, and stops listening when its controller ends.",
  ["inputs", "histories", "fault_sequences"], "every request content and every history of controller outcomes and cancellation",
  "One test executes one valid request.",
  ["controller/exec/exec.go", "controller/exec/exec-request.go", "controller/exec/exec-response.go", "bus/api/api.go", "bus/api/controller"],
  [("ExecControllerRequest.Execute", "controller/exec/exec-request.go"), ("API.GetBusInfo / ExecController", "bus/api/api.go")],
  [], ["response stream", "controllers on the bus"])
p("C21", "Unloading a plugin stops exactly what came from it",
  "Factories of a static or loaded plugin resolve while the plugin is loaded, and controllers built from them run like any other. When the plugin is unloaded, its factories no longer resolve or construct, and every controller built from them is stopped and closed, exactly once, while controllers and factories of other plugins are unaffected. Loading and unloading may be repeated in any order. A plugin directory controller loads exactly the shared libraries its directory holds, reloads one whose file changed, unloads what was removed (following changes if told to watch), skips what is no plugin without losing the others, and unloads everything when it ends.",
  ["histories", "schedules"], "every interleaving of loading and unloading plugins with lookups, constructions and running controllers, and every history of files appearing in, changing in and disappearing from the directory",
  "No test unloads a plugin.",
  ["plugin/resolver.go", "plugin/static-plugin-factory.go", "plugin/static-plugin.go", "plugin/loader/shared-library", "plugin/loader/shared-library/filesystem", "controller/loader", "controller/resolver/res-load-with-config.go"],
  [("Resolver preUnload/unload", "plugin/resolver.go"), ("StaticPluginFactory", "plugin/static-plugin-factory.go")],
  [], ["lookup results", "Construct/Execute/Close calls"])
p("C22", "Plugin code generation is correct and deterministic",
  "For any set of analysed packages with controller factories, the generated plugin wrapper compiles, registers exactly the factories of those packages each once, and is byte-for-byte the same for the same input; what the compiler commands build from it loads and runs those factories. While watching, every change of a source file of the plugin ends in a rebuilt plugin, complete under its final name, which replaces the older versions and no other file. Relocating a Go module file rewrites relative replace directives to name the same directories from the new location and leaves every other requirement and replacement as it was. The build identifier of a plugin depends only on its key and the content of the compiled file.",
  ["inputs", "configurations"], "every set of packages (including several with the same package name) and every module file, and every history of edits while a plugin is watched and compiled",
  "One golden test with a single package and one fixed module file.",
  ["plugin/compiler/codegen.go", "plugin/compiler/module-utils.go", "plugin/compiler/hash.go", "plugin/compiler/analysis.go", "plugin/compiler/util.go", "plugin/compiler/module-compiler.go", "plugin/compiler/compiler.go", "plugin/compiler/watcher.go", "plugin/cli"],
  [("CodegenPluginWrapperFromAnalysis", "plugin/compiler/codegen.go"), ("relocateGoModFile", "plugin/compiler/module-utils.go")],
  [], ["generated source", "rewritten go.mod"])
p("C23", "Ready-made controllers, factories and handlers behave like written ones",
  "A controller built from functions or on the bus-controller base, and a factory built from constructor functions, behave on a bus like hand-written ones: they report the identity, version and description given (readers of the information cannot change it), are offered every directive, are executed and closed through the functions given exactly as the bus executes and closes any controller, and get the bus, logger and config they were constructed with; a factory constructs only from configs of its own type and rejects others with an error. A callback, typed or logging reference handler passes every event to the right function exactly once, unchanged and in order (values of another type only to the fallback handler), with any of the functions missing. The error-reporting idle callback delivers errors other than cancellation, in waiting mode only once idle, and never blocks. Resolver-list helpers drop nil resolvers and pass errors on; debug values are merged without loss; the networked codec round-trips directives and rejects other objects and malformed data without panicking. The built-in controllers, factories and configs report their own IDs, versions and descriptions, and their configs equal exactly configs of the same type and content.",
  ["inputs", "histories"], "every combination of given and missing functions, every nesting of handlers, every sequence of events and every config and message",
  "The tests use single controllers and handlers in one order of events.",
  ["bus/controller.go", "bus/factory.go", "bus/callback.go", "controller/callback/callback.go", "controller/info.go", "directive/callback-handler.go", "directive/typed-callback-handler.go", "directive/log-handler.go", "directive/err-idle-callback.go", "directive/resolver.go", "directive/proto/proto.go", "config/config.go"],
  [("NewBusControllerFactory", "bus/controller.go"), ("NewCallbackController", "controller/callback/callback.go"), ("NewTypedCallbackHandler", "directive")],
  [], ["calls of the functions", "values and errors passed on"])
p("C24", "The daemon runs exactly its config file and serves its client",
  "The daemon started with a config file executes exactly the controllers it describes (each different config once, failing ones are retried, invalid ones never) together with those it needs itself, lists exactly these over its API, and waits for controller types which a plugin in the watched directory provides, however late it appears; removing a plugin removes its controllers and nothing else. A config file which is missing, unreadable or malformed ends the daemon with a nonzero exit and an error naming the cause before anything of it is applied, and is not modified; one written on request decodes to the same set and runs the same again, and without the request the file is never changed. A temporarily taken API address is retried or reported, never ignored. The client prints what the API reports in both of its formats, streams every status of the controllers it executes, its controllers stop when it ends while those of the config file are untouched, and a failing request ends it with an error and a nonzero exit. Neither program panics.",
  ["inputs", "histories", "configurations"], "every config file, flag or environment setting, plugin directory history and sequence of client runs",
  "No test starts the daemon or the client.",
  ["cmd/controllerbus/cmd_daemon.go", "cmd/controllerbus/notjs.go", "cli", "core", "bus/api", "controller/configset", "plugin/loader/shared-library/filesystem"],
  [("runDaemon", "cmd/controllerbus/cmd_daemon.go"), ("ClientArgs.RunExecController", "cli"), ("ClientArgs.RunBusInfo", "cli")],
  [], ["process output and exit codes", "API responses", "config files"])
p("C25", "The standard bus stack is assembled as configured and buses are isolated",
  "A new core bus is built from its options in their order: nil options are ignored, and the first failing option, or else the failing constructor of the factory resolver, ends the construction with its error and no bus. Otherwise the bus, from the moment it is returned, resolves the config constructors and factories given as built-in and those added to the returned static resolver at any later time (the highest version of each), through the custom factory resolver if one was given last, executes controllers from configs, lists exactly its controllers, and applies config sets once the config-set controller is requested. Nothing registered, requested or running on one bus is visible on another, and when the context of a bus ends everything running on it stops and is closed, while other buses are unaffected.",
  ["inputs", "histories", "configurations"], "every sequence of options, and every history of registrations, lookups, executions and config sets on any number of buses",
  "The tests build a bus without options or with one list of factories.",
  ["core/core.go", "bus/inmem/inmem.go", "controller/resolver/controller.go", "controller/resolver/static/static.go", "controller/loader/loader.go"],
  [("NewCoreBus", "core/core.go"), ("Option", "core/core.go")],
  [], ["results of NewCoreBus", "lookup results", "Execute/Close calls"])
p("C26", "What ended is let go: memory and goroutines do not grow",
  "However long a bus lives, what has ended on it leaves nothing behind: after any number of rounds in which everything begun is also ended (directives added and released or closed, references, callbacks, values and child resolvers added to and removed from directives which live on, controllers and handlers added and removed, one-off lookups and watches returned and released, directives forwarded to another bus, controllers loaded by config or factory, config sets applied, pushed, looked up and released, API calls ended, plugins loaded, looked up and unloaded, and whole buses created and ended), the bus, its controllers and those which live on hold as many objects and run as many goroutines as before those rounds.",
  ["histories"], "every number of repetitions of every mix of operations in which all that is begun is ended, in every order of the ends, with waits and without",
  "Tests end after one round of operations; what is left behind by each is too little to notice.",
  ["directive/controller/controller.go", "directive/controller/instance.go", "directive/controller/resolver-handler.go", "bus/inmem/inmem.go", "bus/bridge/bridge.go", "bus/oneoff.go", "controller/loader/loader.go", "controller/configset/controller/controller.go", "controller/resolver/static/static.go", "plugin/resolver.go"],
  [("Controller.removeLocked", "directive/controller/controller.go"), ("directiveInstance.removeLocked", DC+"instance.go"), ("execution of config sets", "controller/configset/controller/controller.go")],
  [], ["live heap objects after garbage collection", "running goroutines"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
