"""What each property's check runs: simulated worlds, workload profiles, and what makes a run count."""

EXEC_REAL = ["src/exec (plan nodes, executive, resource arbiter)", "src/expr", "src/value", "src/intfc (state cache, lookups, commands, updates)",
             "src/xml-parser", "src/utils"]
EXEC_STUB = ["interface adapters and input queue (the simulator plays every adapter: it answers lookups, drives command replies, "
             "acknowledgements, aborts, state changes)", "clock"]
EXEC_RULE = ("A run draws a random plan (or several, added at random moments) and a random environment from one seed and executes the real "
             "executive against it; after every micro step every node transition, outcome, variable write, command, abort, update and "
             "lookup is compared with an independent reference model of the plan language. %s")
EXEC_ASSUME = ["the reference model in sim/plan_exec_model.hh states the plan language correctly",
               "plans use Boolean, Integer, Real and String scalars and arrays of them; generated conditions avoid expressions whose operands have the wrong type"]

def E(profile, w=1, need=None):
    return {"world": "exec", "profile": profile, "w": w, "need": need}

def ex(rule, *runs):
    return {"runs": list(runs), "rule": EXEC_RULE % rule, "real": EXEC_REAL, "stubs": EXEC_STUB, "assumptions": EXEC_ASSUME}

APP_REAL = EXEC_REAL + ["src/app-framework (ExecApplication, InterfaceManager, AdapterConfiguration, input queue, listener hub and filters, "
                        "time adapter, Posix and Itimer timebases)"]
APP_STUB = ["threads, mutexes, condition variables, semaphores, timers, signals, sleeping and the clocks (pthread and libc symbols, simulated)",
            "the mission adapter and listeners (the simulator's own, answering from simulated threads)"]
APP_RULE = ("A run builds the real application from a random configuration, runs it with random user, adapter and timer threads under a simulated scheduler which "
            "chooses every switch (also between single memory accesses), and checks what the plans, the callers and the listeners saw. %s")
APP_ASSUME = ["switches happen at synchronisation calls and at memory accesses of instrumented code; memory is sequentially consistent",
              "the oracles in sim/world_app.cc state the framework's promises correctly"]

def A(profile, w=1, need=None):
    return {"world": "app", "profile": profile, "w": w, "need": need}

def ap(rule, *runs):
    return {"runs": list(runs), "rule": APP_RULE % rule, "real": APP_REAL, "stubs": APP_STUB, "assumptions": APP_ASSUME,
            "measure": "hash of the sequence of thread switches of a run"}

UDP_REAL = APP_REAL + ["src/interfaces/UdpAdapter (UdpAdapter, UdpEventLoop, MessageQueueMap, udp-utils)"]
UDP_STUB = ["threads, mutexes, condition variables, semaphores, timers, signals, sleeping and the clocks (pthread and libc symbols, simulated)",
            "sockets, pipes, poll and name resolution (libc symbols, simulated)", "the peer outside (the simulator's own)"]
UDP_RULE = ("A run builds the real application with the real UDP adapter from a random set of messages, runs plans which send and receive them over a simulated network "
            "that loses, repeats, reorders, delays, shortens and lengthens datagrams and makes socket calls and name resolution fail or be interrupted, under a simulated scheduler, "
            "and compares each datagram and each value a plan received with an independent encoding of the message. %s")

def U(profile, w=1, need=None):
    return {"world": "udp", "profile": profile, "w": w, "need": need}

def ud(rule, *runs):
    return {"runs": list(runs), "rule": UDP_RULE % rule, "real": UDP_REAL, "stubs": UDP_STUB, "assumptions": [APP_ASSUME[0], "the wire format in sim/world_udp.cc states the documented one"],
            "measure": "hash of the sequence of thread switches of a run"}

LUV_REAL = ["src/interfaces/LuvListener, src/interfaces/Sockets", "src/app-framework, src/exec, src/expr, src/value, src/intfc, src/utils, src/xml-parser (all but main)"]
LUV_STUB = ["the scheduler, clocks, timers, mutexes, condition variables and signals (libc symbols, simulated)",
            "sockets and name resolution (libc symbols, simulated)", "the viewer and the command adapter (the simulator's own)"]
LUV_RULE = ("A run starts the real application with the real Luv listener and the plans of a random set, added from another thread while the executive runs, against a simulated viewer "
            "which may be missing, slow, blocking, chatty, or close or reset the connection, over a TCP stream with a window of its own, partial writes, interrupted calls and failing sockets, "
            "under a simulated scheduler; it compares each message with what the executive did. %s")

def luv(rule, *runs):
    return {"runs": list(runs), "rule": LUV_RULE % rule, "real": LUV_REAL, "stubs": LUV_STUB, "assumptions": [APP_ASSUME[0], "the message format in sim/world_luv.cc states the documented one"],
            "measure": "hash of the sequence of thread switches of a run"}

SAS_REAL = ["src/apps/StandAloneSimulator (script reader, response managers, agenda, timing service, simulator loop)", "in the world simprog also PlexilSimulator.cc (main, renamed), IpcCommRelay and src/interfaces/IpcUtils", "src/value, src/utils"]
SAS_STUB = ["threads, mutexes, signals, sigwait, the interval timer and the clock (pthread and libc symbols, simulated)",
            "in the world sas the relay; in the world simprog the IPC library and its server (an in-process message bus with the same calls)",
            "the executives: requests and lookups come from a simulated thread"]
SAS_RULE = ("A run writes random scripts (new and old format, comments, defaults, repeated times), has the real reader read them and runs the real simulator under a simulated scheduler, with late timers, "
            "stalled threads and a clock which jumps, while another thread requests commands and looks up states; every response is compared with what the scripts say; in half of the runs the whole program runs, with its options, over a simulated message bus whose publications fail, from before it is ready until after it is told to end. %s")

IPC_REAL = ["src/interfaces/IpcAdapter, src/interfaces/IpcUtils (IpcAdapter, MessageQueueMap, IpcFacade)", "src/app-framework, src/exec, src/expr, src/value, src/intfc, src/utils, src/xml-parser (all but main)"]
IPC_STUB = ["the scheduler, clocks, timers, mutexes, condition variables, semaphores and signals (libc symbols, simulated)",
            "the IPC library and its central server (sim/simipc.cc: marshals by the real format strings)", "the other agents on the bus (the simulator's own)"]
IPC_RULE = ("A run builds the real application with the real IPC adapter and plans which send, receive, look up, publish and update over a simulated bus to simulated agents; "
            "publications and connections fail, deliveries are delayed, agents answer late, twice, never asked or not at all, die within a sequence and start again, and send messages of unknown kinds, "
            "and each message leaving and each value a plan or agent got is compared with what was sent. %s")

def ipc(rule, *runs):
    return {"runs": list(runs), "rule": IPC_RULE % rule, "real": IPC_REAL, "stubs": IPC_STUB,
            "assumptions": [APP_ASSUME[0], "the bus delivers in order per sender, as the adapter presumes", "an agent always answers a lookup in the end (the executive waits for it)"],
            "measure": "hash of the sequence of thread switches of a run"}

def sas(rule, *runs):
    return {"runs": list(runs), "rule": SAS_RULE % rule, "real": SAS_REAL, "stubs": SAS_STUB, "assumptions": [APP_ASSUME[0], "the reading of the script format in sim/world_sas.cc is the documented one"],
            "measure": "hash of the sequence of thread switches of a run"}

MAIN_REAL = ["src/universal-exec/UniversalExec.cc (main, renamed)", "src/app-framework with the adapters it contains (time, utility, launcher)", "src/exec, src/expr, src/value, src/intfc, src/utils, src/xml-parser"]
MAIN_STUB = ["the scheduler, clocks, timers, mutexes, condition variables, semaphores and signals (libc symbols, simulated)",
             "the file system (fopen, served from the simulator's files; opening and reading may fail)", "standard output (captured)"]
MAIN_RULE = ("A run draws a plan of sequential and parallel prints, waits, library calls, launched plans, resources, failures and repeats, the files and options to run it with, and what is wrong with them; runs the real main() "
             "on simulated threads, timers, clock and files; and compares exit status, output, order and time with what was drawn. %s")

def mainw(rule, *runs):
    return {"runs": list(runs), "rule": MAIN_RULE % rule, "real": MAIN_REAL, "stubs": MAIN_STUB,
            "assumptions": [APP_ASSUME[0], "the clock does not jump backwards while a plan waits for a time"],
            "measure": "hash of the sequence of thread switches of a run"}

TEST_RULE = ("A run draws a random plan, resources, libraries and a random sequence of script entries which fit what the plan waits for, what is wrong with the files, the options or an entry, "
             "drives the real executive directly entry by entry, and has TestExec's real main play the same from a script on a simulated file system, in a process of its own; what it reports, its order, "
             "times and outcomes, what plans print, and its exit status are compared. %s")

def testw(rule, *runs):
    return {"runs": list(runs), "rule": TEST_RULE % rule,
            "real": ["src/apps/TestExec (main, renamed)", "src/interfaces/PlanDebugListener, src/app-framework (ExecListenerHub, ExecListener)", "src/exec, src/expr, src/value, src/intfc, src/utils, src/xml-parser"],
            "stubs": ["the file system (fopen, served from the simulator's files; opening and reading may fail)", "the environment of the direct run (states, commands, updates kept by sim/world_test.cc)"],
            "assumptions": ["what the executive itself does is decided by the checks of world exec: here both sides use it", "the order of transitions of one micro step is free"],
            "measure": "hashes of the reports expected"}

LEAK_RULE = ("A run draws one or two plans, the libraries they call, plans and libraries which may be refused, and an environment; plays all of it twelve times over in one executive, each time with the same answers, "
             "until every plan is finished and removed; and compares the live memory of the process after each time. %s")

def leak(rule, *runs):
    return {"runs": list(runs), "rule": LEAK_RULE % rule,
            "real": EXEC_REAL, "stubs": ["the adapter (answers, replies and acknowledgements drawn by the simulator)", "malloc, free and their kin (the C library's, counted)"],
            "assumptions": ["what the executive allocates for good (tables, caches) is allocated in the first five rounds", "memory which is lost shows as growth of both the number and the size of live blocks in each of the last seven rounds"],
            "measure": "hash of the numbers of transitions, commands, aborts, updates, lookups and refusals"}

CHECKS = {
    "P01": ex("Non-trivial: a node failed, was skipped, or repeated.",
              E("all", 4, "probe.failing,probe.repeat"), E("hierarchy", 1, "probe.failing,probe.repeat"),
              E("command", 1, "probe.failing,probe.repeat"), E("repeat", 1, "probe.failing,probe.repeat"), E("array", 1, "probe.failing,probe.repeat"), E("lookup", 1, "probe.failing,probe.repeat")),
    "P02": ex("Non-trivial: a node went through failing below a list node.",
              E("hierarchy", 5, "probe.failing"), E("all", 1, "probe.failing"), E("command", 1, "probe.failing,probe.abort"), E("mutex", 1, "probe.failing")),
    "P03": ex("Non-trivial: an assignment or command ended a step, or a lookup was shared in one step.",
              E("all", 3, "probe.assign,probe.command"), E("lookup", 2, "probe.assign,probe.command"), E("assign", 2, "probe.assign,probe.command"),
              E("threshold", 1, "probe.assign")),
    "P04": ex("Non-trivial: two nodes contended for a variable, or an assignment was retracted.",
              E("assign", 6, "probe.contention,probe.retract"), E("all", 1, "probe.contention,probe.retract"), E("library", 1, "probe.contention,probe.retract")),
    "P05": ex("Non-trivial: a node was held back by a mutex or variable another node held.",
              E("mutex", 6, "probe.contention_blocked"), E("all", 1, "probe.contention_blocked"), E("library", 1, "probe.contention_blocked")),
    "P06": ex("Non-trivial: a command was denied its resources.",
              E("resource", 7, "probe.denied"), E("command", 1, "probe.denied")),
    "P07": ex("Non-trivial: a command was aborted, failed, or a reply came late or twice.",
              E("command", 6, "probe.abort,fault.command_failed,fault.late_reply,fault.duplicate_reply"),
              E("resource", 1, "probe.abort,fault.command_failed,fault.late_reply,fault.duplicate_reply"),
              E("all", 1, "probe.abort,fault.command_failed,fault.late_reply,fault.duplicate_reply")),
    "P08": ex("Non-trivial: a state's value moved, was missing or was withheld within thresholds.",
              E("lookup", 4, "env.drift,fault.lookup_no_answer,fault.wrong_type"), E("threshold", 3, "env.update_withheld"), E("all", 1, "env.drift,fault.wrong_type")),
    "P09": ex("Non-trivial: a planner update was sent.",
              E("update", 7, "probe.update"), E("all", 1, "probe.update")),
    "P22": ex("Non-trivial: a node repeated.",
              E("repeat", 6, "probe.repeat"), E("all", 1, "probe.repeat"), E("mutex", 1, "probe.repeat")),
    "P23": ex("Non-trivial: a library node ran (its body made a transition).",
              E("library", 8, "probe.library")),
    "P25": ex("Non-trivial: an element of an array was assigned.", E("array", 8, "probe.element")),
    "P29": ex("Non-trivial: a variable was assigned the value of an expression, or a condition ended a node.", E("expr", 8, "probe.assign"), E("all", 1, "probe.assign")),
    "P10": ap("Non-trivial: the plan saw a value or a reply from another thread.",
              A("inputs", 4), A("queue", 3), A("wait", 1)),
    "P11": ap("Non-trivial: inputs were processed or a suspension was observed.",
              A("control", 4), A("inputs", 3), A("finish", 1)),
    "P12": ap("Non-trivial: a thread waited for its inputs to be processed.", A("wait", 8)),
    "P13": ap("Non-trivial: a call waiting for plans or shutdown returned.", A("finish", 6), A("control", 2)),
    "P14": ap("Non-trivial: a timed wait ended.", A("timer", 5), A("timebase", 3)),
    "P21": ap("Non-trivial: a listener was notified.", A("listener", 8)),
    "P20": dict(ap("In half of the time the executive alone is run: damaged documents are parsed between the steps of plans whose every step is compared with a reference model. "
                "Non-trivial: a document was refused, or a plan ran a library's body.",
                A("plans", 4), E("malformed", 4, "fault.damaged_plan_refused,fault.damaged_plan_taken,fault.damaged_library_refused,fault.damaged_library_taken,fault.library_again")),
                assumptions=APP_ASSUME + EXEC_ASSUME),
    "P17": ap("Non-trivial: a handler was asked, or an adapter ran and was stopped.", A("dispatch", 8)),
    "P24": ap("Non-trivial: a plan was run by its launcher.", A("launch", 8)),
    "P18": luv("Non-trivial: the viewer was told of an update, or was missing or left.", {"world": "luv", "profile": "viewer", "w": 8, "need": None}),
    "P26": sas("Non-trivial: the response to a command was sent.", {"world": "sas", "profile": "script", "w": 4, "need": None}, {"world": "simprog", "profile": "program", "w": 4, "need": None}),
    "P27": ipc("Non-trivial: a plan received a message, command or return value, or reported one sent.", {"world": "ipc", "profile": "bus", "w": 8, "need": None}),
    "P28": ipc("Non-trivial: a plan or an agent got the value of a lookup.", {"world": "ipc", "profile": "lookup", "w": 8, "need": None}),
    "P31": testw("Non-trivial: at least one entry took effect, or the program was to refuse.", {"world": "test", "profile": "script", "w": 8, "need": None}),
    "P32": leak("Non-trivial: a plan made more than eight transitions.", {"world": "leak", "profile": "all", "w": 8, "need": None}),
    "P30": mainw("Non-trivial: the program was to run a plan which prints, or to refuse.", {"world": "main", "profile": "run", "w": 8, "need": None}),
    "P15": ud("Non-trivial: a plan received a message or reported one sent.", U("receive", 8)),
    "P16": ud("Non-trivial: a plan received a message or reported one sent.", U("send", 8)),
}
