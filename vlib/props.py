"""The properties (properties.jsonl and MANIFEST.json are written from here by gen.py)."""
HOOKS = {"guard": "none", "enable": "no hooks: every seam is an interface the code already has, or a libc/pthread symbol the simulator interposes at link time", "source_commits": []}
NOTE = ("Seeded random search over programs, environments and fault sequences; a clean result covers the runs explored (counts in the evidence), "
        "not all. Trusts the reference model and the simulated environment in /verif/sim.")

def P(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}

PROPS = [
P("P01", "Nodes follow the plan language's life cycle exactly",
  "Whatever the plan and whatever the outside world does, every node changes state only along the transitions the plan language defines, does so as soon "
  "as its conditions call for it, and ends with the outcome and failure type the language assigns to what happened. Among conditions that become "
  "true together the language's precedence (ancestor exit, exit, ancestor invariant, invariant, end) decides.",
  ["programs", "histories", "inputs"], "every plan, every sequence and timing of state changes, command replies and acknowledgements",
  "The tests run a few dozen fixed plans against fixed scripts; precedence between simultaneous conditions, in combination with node kinds and nesting, has far too many cases to list.",
  ["src/exec/NodeImpl.cc", "src/exec/ListNode.cc", "src/exec/CommandNode.cc", "src/exec/AssignmentNode.cc", "src/exec/UpdateNode.cc", "src/exec/PlexilExec.cc"],
  [("destination state per current state", "NodeImpl::getDestStateFrom*, overridden per node kind"), ("candidate and transition queues", "PlexilExec::step")],
  [("node state, outcome, failure type", "the life cycle position of each node", "NodeImpl")]),
P("P02", "Ending a list node ends everything below it",
  "When a list node ends for whatever reason (its own end, exit, a failed invariant, or the same of an ancestor), every descendant stops: running ones are failed or aborted "
  "with the cause passed down, waiting ones are skipped, and the list itself finishes only after all of them. No descendant of a finished list acts again until the list is run again.",
  ["programs", "histories"], "every nesting of nodes and every moment at which a termination can strike",
  "Termination can strike in any combination of descendant states; the tests have a handful of fixed trees.",
  ["src/exec/ListNode.cc", "src/exec/NodeImpl.cc", "src/exec/CommandNode.cc"],
  [("ancestor conditions", "NodeImpl::getAncestor*Condition"), ("children-waiting-or-finished test", "ListNode")]),
P("P03", "A step is atomic, and the executive runs until nothing more can happen",
  "Within one step every state looked up is read from the outside once and is seen with one value by all nodes; conditions see all the effects of a micro step or none, and a step ends "
  "with the assignments and commands it caused. When the executive reports that it has nothing to do, no node is able to change state.",
  ["programs", "histories", "inputs"], "every plan and every timing of external changes relative to steps",
  "A missed re-evaluation or a half-seen update needs a specific coincidence of changes in one step; tests check end results of fixed scripts.",
  ["src/exec/PlexilExec.cc", "src/exec/NodeImpl.cc", "src/intfc/StateCache.cc", "src/intfc/StateCacheEntry.cc", "src/expr/Notifier.cc"],
  [("step loop", "PlexilExec::step, needsStep"), ("time stamped lookup cache", "StateCacheEntry::ensureUpdated"), ("change notification", "Notifier, Propagator")]),
P("P04", "Conflicting assignments: best priority writes alone, failed ones are undone",
  "At most one assignment at a time is active on a variable: of those ready together one with the best priority goes first and the others wait until it has finished. "
  "The value assigned is the right-hand side at the moment the node started; an assignment that fails or is aborted restores the variable's previous value, known or unknown.",
  ["programs", "histories"], "every set of assignments, priorities, variable types and points of failure",
  "Needs simultaneous eligibility of several nodes, and failure at the one micro step between writing and ending; tests cover a few pairs.",
  ["src/exec/AssignmentNode.cc", "src/exec/Assignment.cc", "src/exec/PlexilExec.cc", "src/expr/UserVariable.cc", "src/expr/ArrayReference.cc"],
  [("pending queue ordered by priority", "PlexilExec pending queue"), ("variable reservation", "Reservable"), ("saved value and retract", "UserVariable::saveCurrentValue, Assignment::retract")]),
P("P05", "Plan mutexes exclude, are released, and pass to a waiting node",
  "At any time at most one node holds a plan mutex, and a node holds either all the mutexes it names or none. They are released when it finishes for whatever reason, "
  "after which a waiting node whose conditions still hold gets them, the best priority first.",
  ["programs", "histories"], "every use of mutexes across nested, repeating and failing nodes and several plans",
  "Needs contention combined with failure or withdrawal of the holder or of a waiting node at particular micro steps; tests have fixed two- and three-node cases.",
  ["src/exec/Mutex.cc", "src/exec/NodeImpl.cc", "src/exec/PlexilExec.cc", "src/expr/Reservable.cc"],
  [("all-or-nothing acquisition", "PlexilExec::tryResourceAcquisition"), ("release on finishing", "NodeImpl::transitionToFinished"), ("waiting list", "Reservable")]),
P("P06", "Resource arbitration never oversubscribes and never leaks",
  "The commands accepted in a step, together with those still holding resources, never use more of a resource (including what its sub-resources imply) than its limit; among competing commands "
  "the better priority wins; a rejected one is told so. What a command took becomes free when it ends, in every way it can end.",
  ["programs", "histories", "configurations"], "every resource hierarchy, command mix, priority assignment and command outcome",
  "Leaks and double counting appear only after histories of accepted, denied, aborted and failed commands; tests check single arbitration rounds.",
  ["src/intfc/ResourceArbiterInterface.cc", "src/exec/PlexilExec.cc", "src/intfc/CommandImpl.cc", "src/exec/CommandNode.cc"],
  [("arbitration", "ResourceArbiterImpl::arbitrateCommands"), ("release", "CommandImpl::deactivate, PlexilExec::releaseResourcesForCommand")]),
P("P07", "A command is sent once, aborted at most once, and ends on its replies",
  "Each time a command node executes, its command goes out exactly once with the arguments evaluated at that moment, or is rejected; it is aborted exactly when it is cut short while running. "
  "Replies, return values and abort acknowledgements update only the execution they belong to in the language's way, whatever their order, duplication or delay.",
  ["programs", "histories", "fault_sequences"], "every order, duplication, omission and delay of replies against every way the node can end",
  "Late, duplicate and crossing replies need adapters that misbehave in time; the test simulator replies in order.",
  ["src/exec/CommandNode.cc", "src/intfc/CommandImpl.cc", "src/exec/PlexilExec.cc", "src/intfc/Dispatcher.hh"],
  [("activation and abort", "CommandNode::handleExecution, abort"), ("reply entry points", "CommandImpl::setCommandHandle, returnValue, acknowledgeAbort")]),
P("P08", "Lookups see the outside world's values; thresholds never hide a change",
  "A lookup yields the latest value its state was given (unknown if none, never a value of the wrong type), for the arguments its parameters now have. A change lookup with a tolerance is re-evaluated whenever its state has moved by the tolerance from the "
  "value it last showed, even if the source only reports changes that pass the thresholds the executive asked for.",
  ["programs", "histories", "inputs"], "every history of values, unknowns, tolerances, arguments, activation and deactivation of lookups",
  "Thresholds depend on the whole history of a state and on which lookups are active; tests use monotone values and one lookup.",
  ["src/intfc/Lookup.cc", "src/intfc/StateCacheEntry.cc", "src/intfc/StateCache.cc", "src/intfc/CachedValueImpl.cc"],
  [("registration and thresholds", "StateCacheEntry::registerLookup, updateThresholds"), ("typed cache", "CachedValueImpl"), ("parametric lookups", "Lookup::handleChange")]),
P("P09", "Updates reach the planner once, with the right values, and end on its answer",
  "Each time an update node executes, one update goes out with every name and the value its expression had at that moment. The node ends on the acknowledgement of that execution only, whether it comes late, is negative or never comes.",
  ["programs", "histories", "fault_sequences"], "every mix of updates, acknowledgements, terminations and repetitions",
  "Late and negative acknowledgements against termination are not in the tests.",
  ["src/exec/UpdateNode.cc", "src/intfc/Update.hh"],
  [("activation and acknowledgement", "UpdateNode, UpdateImpl::acknowledge")]),
P("P10", "Every input reaches the plan exactly once and in order",
  "Every value change, command acknowledgement, return value, abort or update acknowledgement an adapter hands to the framework, from whatever thread, takes effect in the executive exactly once, "
  "after everything the same thread handed over before it; nothing is lost, repeated, invented or mixed up between states and commands.",
  ["schedules", "histories"], "every interleaving of any number of adapter threads with the executive's own thread",
  "A queue entry lost or handed out twice needs a particular interleaving of threads at particular instructions; tests run with the interleaving the machine happens to give.",
  ["src/app-framework/SerializedInputQueue.cc", "src/app-framework/InterfaceManager.cc", "src/app-framework/QueueEntry.cc"],
  [("queue", "SerializedInputQueue::put, get, allocate, release"), ("draining", "InterfaceManager::processQueue")]),
P("P11", "The executive never sleeps on work, and obeys suspend, resume and stop",
  "Whenever an input, a plan, a timer or an explicit notification is there to be processed and the application is running, the executive gets to it: no wakeup is lost and no thread deadlocks. "
  "While suspended it takes no step, after resuming it catches up, and after stop() returns it takes none again.",
  ["schedules", "histories"], "every interleaving of notifications, suspensions and the executive's loop",
  "A lost wakeup leaves a plan hanging once in millions of runs.",
  ["src/app-framework/ExecApplication.cc", "src/app-framework/InterfaceManager.cc", "src/utils/ThreadSemaphore.cc"],
  [("exec loop", "ExecApplication::runInternal, waitForExternalEvent"), ("notification", "ExecApplication::notifyExec"), ("suspend", "suspend, resume, stop")]),
P("P12", "notifyAndWaitForCompletion returns only when its inputs are processed",
  "When notifyAndWaitForCompletion returns to an adapter, every input that adapter had handed over before the call has been seen by the plan and everything it set off has happened; and it does return, "
  "while the application runs, however many threads wait.",
  ["schedules", "histories"], "every interleaving of several waiting threads with the executive",
  "Marks overtaking inputs, or a wakeup consumed by the wrong waiter, are matters of instructions.",
  ["src/app-framework/ExecApplication.cc", "src/app-framework/InterfaceManager.cc"],
  [("queue marks", "InterfaceManager::markQueue, getLastMark"), ("waiting", "ExecApplication::notifyAndWaitForCompletion")]),
P("P13", "Waiting for plans or for shutdown ends when, and only when, it should",
  "waitForPlanFinished returns once every plan added before the call has finished, and not before; waitForShutdown returns once the application has stopped, and not before; "
  "stop() brings a running application to an end, whatever its threads are doing, and it can then be destroyed.",
  ["schedules", "histories"], "every interleaving of plan arrival, plan completion, waiting threads and stop",
  "The tests use one waiter and one plan.",
  ["src/app-framework/ExecApplication.cc"],
  [("plan accounting", "ExecApplication::waitForPlanFinished, allPlansFinished"), ("shutdown", "stop, waitForShutdown")]),
P("P14", "Timed waits end at or after their time, once, and never get lost",
  "A node waiting for a time starts once the clock has passed it, never before, and within the tolerance and the lateness of the operating system's timers after it, whatever other deadlines come and go; "
  "a timebase asked for a wakeup delivers it at or after the time asked for, a periodic one ticks at its interval, and none delivers one after it was stopped. It can be started again.",
  ["schedules", "histories", "fault_sequences"], "every sequence of deadlines, late timers, clock jumps and restarts, with either timebase",
  "A deadline lost between two settings of the timer, or an alarm a microsecond early, depends on clock readings tests do not control.",
  ["src/app-framework/TimeAdapter.cc", "src/app-framework/PosixTimebase.cc", "src/app-framework/ItimerTimebase.cc", "src/app-framework/Timebase.cc"],
  [("next wakeup", "TimeAdapter::setThresholds"), ("timers", "PosixTimebase, ItimerTimebase::setTimer, start, stop")]),
P("P15", "Each UDP message received reaches one waiting command, intact and in order",
  "A datagram arriving for a configured message is handed to exactly one waiting ReceiveCommand, its parameters, read by GetParameter, are the values it carried, and messages are taken in order of arrival. "
  "None is invented, repeated, mixed with another or lost, also when commands are aborted, datagrams are too short, or socket calls fail or are interrupted; once the network works again, receiving goes on.",
  ["schedules", "faults", "inputs"], "every message definition, interleaving of the receiving thread with the executive, and sequence of network faults",
  "What is received depends on arrival times against the plan and on faults; the tests exchange a few datagrams on the loopback interface and do not cover the adapter.",
  ["src/interfaces/UdpAdapter/UdpAdapter.cc", "src/interfaces/UdpAdapter/UdpEventLoop.cc", "src/interfaces/UdpAdapter/MessageQueueMap.cc"],
  [("pairing", "MessageQueueMap::addRecipient, addMessage"), ("decoding", "UdpAdapter::handleUdpMessage"), ("event loop", "UdpEventLoopImpl")]),
P("P16", "A UDP message command succeeds exactly when its datagram was sent",
  "A command which is a configured UDP message sends one datagram to the configured host and port, holding its arguments as configured, and succeeds; if an argument cannot be carried or the network refuses, "
  "nothing is sent and the command fails. No failure keeps a descriptor open or stops later messages. Malformed message definitions are refused at start-up; malformed commands of the adapter fail.",
  ["inputs", "faults"], "every message definition, argument list and network failure",
  "Failing system calls do not happen in tests, which send well-formed messages only.",
  ["src/interfaces/UdpAdapter/UdpAdapter.cc", "src/interfaces/UdpAdapter/udp-utils.cc"],
  [("encoding", "UdpAdapter::buildUdpBuffer, udp-utils encode_*"), ("sending", "send_message_connect")]),
P("P17", "Each request reaches the adapter configured for it, once, as the plan said",
  "Every command, abort, lookup, threshold request and planner update of a plan goes once to the handler which was registered last for its name, else to the default one, with the name, arguments and pairs the plan gave; what the handler answers comes back to the node that asked. "
  "A request which no handler takes, or whose handler refuses or throws, ends as the interface promises (interface error, unknown value, refused abort) and the executive goes on. "
  "Adapters and listeners are initialised, started and stopped once, in order; where one fails, those already started are stopped again.",
  ["configurations", "schedules", "fault_sequences", "programs"], "every set of registrations, every request, argument and kind of answer, and every interleaving of answering threads",
  "Tests register a handler or two and call it directly; wrong routing, a lost answer or a swallowed failure shows only for some registration orders, handler kinds and answers from other threads.",
  ["src/app-framework/AdapterConfiguration.cc", "src/app-framework/InterfaceManager.cc", "src/app-framework/CommandHandler.cc", "src/app-framework/LookupHandler.cc", "src/intfc/CommandImpl.cc", "src/intfc/Lookup.cc", "src/intfc/StateCacheEntry.cc"],
  [("registration", "AdapterConfiguration::registerCommandHandler, registerLookupHandler, setDefault..."), ("dispatch", "AdapterConfiguration::executeCommand, invokeAbort, executeUpdate, lookupNow, setThresholds"), ("lifecycle", "AdapterConfiguration::initialize, start, stop, ExecApplication::startInterfaces")]),
P("P18", "A viewer sees the run exactly and cannot disturb it",
  "A connected Luv viewer reads a sequence of whole, well-formed messages: each plan and library preceded by its plan info and before anything else about it, then every node transition and assignment once, in order, with the values they had. "
  "In blocking mode the executive waits for the acknowledgement of each message, otherwise it never waits for one. A viewer which is missing, slow, closes or resets its connection changes nothing about the run itself, and its connection is given up without leaking a descriptor.",
  ["schedules", "faults", "histories"], "every schedule, plan, pace of the viewer, partial write, interruption and point of disconnection",
  "Tests have no viewer; short writes, resets and messages from two threads occur only in deployments.",
  ["src/interfaces/LuvListener/LuvListener.cc", "src/interfaces/LuvListener/LuvFormat.cc", "src/interfaces/Sockets"],
  [("stream", "LuvListenerImpl::sendMessage, waitForAck"), ("format", "LuvFormat"), ("socket", "Socket::send, recv")]),
P("P20", "A bad plan or library is refused cleanly and changes nothing else",
  "Whatever document is given to the executive as a plan or library, it is either accepted or refused: never an exception in the caller, a crash, an endless expansion, or an effect on the plans which run and the libraries which are loaded. "
  "A valid one is accepted whatever else is refused or added at the same moment from other threads; it uses the newest version of each library whose addition had returned before; a refused one is reported as refused. "
  "One which breaks a rule of the language (names nobody declared, values of the wrong type, a parameter not given, given twice or assigned though it is only In) is refused.",
  ["schedules", "inputs", "histories"], "every document, valid or damaged anywhere, every moment of adding it and every interleaving of threads that add plans and libraries",
  "Tests parse a handful of wrong documents one at a time; the parser's shared state and the library table meet a running executive and other threads only in deployments.",
  ["src/xml-parser", "src/app-framework/InterfaceManager.cc", "src/app-framework/ExecApplication.cc"],
  [("adding", "ExecApplication::addPlan, addLibrary, loadLibrary"), ("parsing", "parsePlan, checkPlan, SymbolTable"), ("libraries", "planLibrary loadLibraryDocument, getLibraryNode")]),
P("P21", "Listeners hear everything that happens, in order, through their filter",
  "Every plan and library added is announced once to every listener before anything else about it; in each step each listener is told exactly the node transitions its filter lets through, "
  "in the order in which they happened, and the assignments, from whichever thread the plans came.",
  ["schedules", "histories", "configurations"], "every filter, plan and interleaving of plans being added with the executive running",
  "Order against a concurrently starting plan is a matter of the schedule; tests use a listener on a single thread.",
  ["src/app-framework/ExecListenerHub.cc", "src/app-framework/ExecListener.cc", "src/app-framework/NodeStateFilter.cc", "src/app-framework/ExecApplication.cc"],
  [("hub", "ExecListenerHub::notifyOfTransitions, stepComplete"), ("filters", "ExecListenerFilter")]),
P("P22", "A repeating node starts afresh in each iteration",
  "Each time a node repeats, its outcome, its variables, its children and its command, assignment or update are as for a first execution: nothing of an earlier iteration is seen, held or still subscribed to (a command's handle stays readable until it is sent again). "
  "It repeats exactly when its repeat condition holds at the end of an iteration.",
  ["programs", "histories"], "every repeating node kind, nesting and number of iterations",
  "State left behind by the third or tenth iteration shows only in histories; tests repeat a few nodes a few times.",
  ["src/exec/NodeImpl.cc", "src/exec/ListNode.cc", "src/expr/Notifier.cc", "src/expr/UserVariable.cc"],
  [("activation counts", "Notifier::activate, deactivate"), ("reset on repeat", "NodeImpl::reset, transitionToWaiting")]),
P("P23", "Calling a library node equals writing its body in place",
  "A library node call behaves as its body with every interface name replaced by what the caller passes: In parameters follow the caller's expression and cannot be written, InOut parameters are the caller's variable, defaults apply where nothing is passed. "
  "Calls of one library do not affect each other.",
  ["programs", "histories"], "every library, nesting, set of parameters and number of calls",
  "Equivalence over all bodies and callers; tests have single calls.",
  ["src/exec/LibraryCallNode.cc", "src/expr/Alias.cc", "src/xml-parser/parseLibraryCall.cc"],
  [("aliases", "Alias, ArrayAlias"), ("name resolution", "LibraryCallNode::findVariable")]),
P("P24", "A plan can start, follow and end other plans by name",
  "StartPlan runs the library named once, with exactly the values passed and defaults for the rest, under a name no other plan has, and returns that name; a wrong call ends with COMMAND_FAILED and starts nothing. "
  "PlanState, PlanOutcome and PlanFailureType tell of any top-level plan what has become of it, in the order it happened, and its end also to those who ask later. ExitPlan ends the plan named, and only that one.",
  ["programs", "schedules", "histories"], "every library, set of arguments, and timing of launches, ends, exits and questions",
  "Launcher, launched plan, follower and the application's threads interleave freely; there is no test of the launcher at all.",
  ["src/app-framework/Launcher.cc", "src/app-framework/InterfaceManager.cc", "src/exec/LibraryCallNode.cc", "src/intfc/StateCache.cc"],
  [("wrapper plan", "Launcher.cc executeStartPlanCommand, makeWrapperPlanXml"), ("state notifications", "LauncherListener"), ("exit by name", "executeExitPlanCommand")]),
P("P25", "Each element of an array holds what was last written to it",
  "An array variable holds, element for element, the values last assigned to it as a whole or to the element its index named when the assignment started; an assignment that fails puts back that element alone. "
  "Elements, sizes, knownness and equality of arrays read through plans, libraries, command arguments, updates and lookups agree with that, and everything that depends on an element or its index sees the change at once.",
  ["programs", "histories", "inputs"], "every element type, size, index expression, assignment, reply and failure, and every interleaving of changes to array and index",
  "What a reference to an element shows depends on the history of both its array and its index; the tests have a few fixed arrays with fixed indexes.",
  ["src/expr/ArrayReference.cc", "src/expr/ArrayVariable.cc", "src/value/ArrayImpl.cc", "src/expr/ArrayOperators.cc", "src/exec/AssignmentNode.cc"],
  [("element reference", "ArrayReference, MutableArrayReference"), ("save and restore", "AssignmentNode, MutableArrayReference::saveCurrentValue")]),
P("P26", "The simulator sends each scripted response once, on time, in order",
  "The stand-alone simulator answers the n-th request of a command as its script says for n (or by default), once, with the value scripted, to the requester, when the delay has passed: never before, and however small the delay or many the responses due at once. "
  "A state is published once per script entry, at its time; responses go out in the order of their times (the script's, if equal), and a lookup sees the value published last. A request without a response gets none and disturbs nothing. "
  "As a program it does so for every executive on the bus, from the moment it is connected until it is told to end; wrong options, a refused connection or a failed publication make it neither crash nor hang.",
  ["inputs", "configurations", "schedules", "fault_sequences", "histories"], "every script, command line, sequence of requests and lookups from several executives, interleaving of the bus's thread with the timer's, late timer, clock jump, failed publication and moment of start or end",
  "Two threads share agenda, timer and lookup values, and the timer's granularity decides which response is on time; the repository has no test of the simulator.",
  ["src/apps/StandAloneSimulator", "src/interfaces/IpcUtils/IpcFacade.cc"],
  [("scheduling", "Simulator.cc handleWakeUp, scheduleNextResponse; TimingService::setTimer"), ("agenda", "Agenda.cc"), ("scripts", "SimulatorScriptReader, CommandResponseManager, PlexilSimResponseFactory"), ("program", "PlexilSimulator.cc main, IpcCommRelay.cc")]),
P("P27", "Over IPC, each message, command and return value arrives once, whole",
  "What a plan sends over IPC (messages, commands, return values, updates) leaves once, with its own name, arguments and addressee, or the node is told that it did not. A message or command from the bus reaches exactly one receiver, "
  "in the order its sender sent it, with exactly its parameters; a return value reaches the execution of the command it answers and no other, also when commands are aborted or repeated. "
  "A plan or library sent over the bus runs once, or is refused if damaged; and no message, whoever sent it, ends the executive.",
  ["inputs", "schedules", "fault_sequences", "histories"], "every plan, value, order and timing of messages, failed publication, abort, and restart of an agent",
  "The bus thread and the executive share the pending commands and message queues; answers can overtake the call which asked. The repository has no test of the IPC adapter.",
  ["src/interfaces/IpcAdapter", "src/interfaces/IpcUtils"],
  [("pending commands", "IpcAdapter.cc executeDefaultCommand, handleReturnValuesSequence"), ("receivers", "MessageQueueMap.cc"), ("sequences", "IpcFacade.cc cacheMessageLeader, cacheMessageTrailer, sendParameters")]),
P("P28", "A lookup over IPC gets the answer to its own question",
  "A lookup sent over IPC returns an answer given to that lookup (or an update of its state), never one to an earlier or another question, and unknown only if it was answered so or could not be sent. "
  "The last value published for a state is seen by every plan which waits for it. A value set with UpdateLookup is what the plan and every agent who asks get from then on, in the order of the updates.",
  ["inputs", "schedules", "fault_sequences", "histories"], "every lookup, state, argument, order of answers and updates, double or late answer, and failed publication",
  "Answer, update and the next question race between two threads; which one wins decides what the plan sees.",
  ["src/interfaces/IpcAdapter/IpcAdapter.cc", "src/interfaces/IpcUtils/IpcFacade.cc"],
  [("pending lookup", "IpcAdapter.cc lookupNow, handleReturnValuesSequence, handleTelemetryValuesSequence"), ("external lookups", "executeUpdateLookupCommand, handleLookupNowMessages")]),
P("P29", "Every expression of a running plan has the value the language gives it",
  "Wherever a plan has an expression (condition, assignment, argument, index, alias, update), its value is the language's at every moment its node uses it: three-valued logic for AND, OR, XOR and NOT of any number of operands; "
  "arithmetic, rounding, comparison, string and time-varying operands, with Integer and Real mixed as declared; unknown where an operand is unknown, a divisor is zero or a result does not exist. "
  "It changes when and only when an operand changes, however deep, and no combination of values ends the executive.",
  ["inputs", "histories", "programs"], "every expression tree over every operator, and every history of known and unknown values of its variables, lookups and node states",
  "The tests evaluate operators on a few constants; a value must stay right while operands come, go and change under a live, incrementally notified tree.",
  ["src/expr", "src/xml-parser"],
  [("logic", "BooleanOperators.cc"), ("arithmetic", "ArithmeticOperators.cc"), ("comparison", "Comparisons.cc"), ("conversion and rounding", "ConversionOperators.cc"), ("n-ary operands", "Function.cc")]),
P("P30", "The universal executive runs its plan to the end, and its status says so",
  "Started with a plan, universalExec runs it with exactly the configuration, resources and libraries named, each library taken from the first place in the search order that has it; "
  "what the plan prints comes out once, whole, in the plan's order; it ends when, and only when, the plan and all plans it started have ended, and exits with status 0. "
  "If an option, plan, library or configuration is missing, unreadable or wrong, or a thread or timer cannot be had, it exits with another status and runs nothing of the plan. A viewer asked for (-v) is told of the run, and whether it is there, slow, leaves or breaks off changes nothing in it. It never crashes or hangs.",
  ["inputs", "configurations", "fault_sequences", "schedules"], "every command line, set of files and their failures, plan, and interleaving of main thread, executive and timers up to the very end of the process",
  "Tests run the parts, never the program: its start-up failures and its end, racing with timers, are not tested.",
  ["src/universal-exec/UniversalExec.cc", "src/interfaces/LuvListener/LuvListener.cc", "src/app-framework/ExecApplication.cc", "src/app-framework/UtilityAdapter.cc", "src/xml-parser/planLibrary.cc", "src/intfc/ResourceArbiterInterface.cc"],
  [("program", "main_internal"), ("search path", "planLibrary.cc loadLibraryFile, loadLibraryNode"), ("printing", "UtilityAdapter.cc, plan-utils.cc"), ("resources", "readResourceHierarchyFile")]),
P("P31", "The test executive plays its script entry by entry and reports what happens",
  "TestExec runs its plan against its script: every entry takes effect once, in its order, on the state, command, abort, update or plan it names, those of a Simultaneous entry together, and the plan takes its step on it before the next. "
  "The start and end of every node is reported once, in order, with its outcome and the script's time, and what the plan prints comes out whole, whatever is reported in between. At the end of the script the plan runs on until nothing more can happen, and the program exits with status 0. "
  "If an option, plan, library or script is missing, unreadable or wrong, or an entry is malformed or answers what was not asked, it exits with another status; it never crashes or hangs.",
  ["inputs", "histories", "fault_sequences"], "every plan, script, command line and set of files and their failures",
  "The tests play some hundred fixed scripts and compare their logs; none has a wrong entry, an unreadable file, a sent plan, or values of all types.",
  ["src/apps/TestExec", "src/interfaces/PlanDebugListener/PlanDebugListener.cc", "src/app-framework/ExecListenerHub.cc"],
  [("script", "TestExternalInterface.cc"), ("program", "exec-test-runner.cc run"), ("report", "PlanDebugListener.cc implementNotifyNodeTransition")]),
P("P32", "Plans which are finished and removed, or refused, leave no memory behind",
  "An executive which runs the same plans over and over in the same environment needs no more memory each time: what a plan, its libraries, commands, updates, lookups, mutexes and resources took is given back once the plan is finished and removed, "
  "whatever happened to it: failure, abort, denial, skipping, repetition, answers which never came. The same holds for a plan or library which is refused, wherever the mistake in it is, and for a library which is loaded again.",
  ["histories", "inputs", "fault_sequences"], "every plan, library and history of its execution",
  "The tests end after one plan each; none looks at what is left.",
  ["src/exec", "src/expr", "src/intfc", "src/xml-parser"],
  [("removed", "PlexilExec.cc deleteFinishedPlans"), ("nodes", "NodeImpl.cc cleanUpNodeBody"), ("refused", "parsePlan.cc parsePlan"), ("libraries", "planLibrary.cc loadLibraryDocument")]),
P("N02", "The plan translators preserve the plan's meaning",
  "Core PLEXIL produced from Plexil, Extended Plexil or the checkpoint and other preprocessors behaves as the source says.",
  ["programs"], "every source plan", "Program space is unbounded.",
  ["compilers", "checker", "schema"], [("translation", "compilers")]),
P("N03", "Serialized values read back equal",
  "A value, array or state written with the binary encoding reads back as the same value and type.",
  ["inputs"], "every value", "Value space is unbounded.",
  ["src/value/Value.cc", "src/value/ArrayImpl.cc"], [("serialization", "Value::serialize, deserialize")]),
]

NA = {
"N02": "batch Java and XSLT translators: one input, one output, no concurrency, time or faults; a simulator has nothing to schedule",
"N03": "pure encode and decode functions with no concurrency, time or I/O (what travels over sockets is covered by the transport properties)",
}
