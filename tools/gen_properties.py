#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
H = "src/handlers/broker_handler.cpp"
HH = "src/handlers/broker_handler.h"
SQ = "src/queuing/single_queue_manager.h"
MQ = "src/queuing/multi_queue_manager.cpp"
QI = "src/queuing/queue_manager_interface.h"
W = "src/worker.cpp"
WR = "src/worker_registry.cpp"
R = "src/reactor/reactor.cpp"
RH = "src/reactor/reactor.h"
RS = "src/reactor/router_socket_wrapper.cpp"
SN = "src/handlers/status_notifier_handler.cpp"
RN = "src/notifier/reactor_status_notifier.cpp"
CU = "src/helpers/curl.cpp"
CF = "src/config/broker_config.cpp"
BC = "src/broker_connect.cpp"
CORE = "src/broker_core.cpp"

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

OUT = ["messages the handler emits to clients, workers, monitor and status notifier"]

prop("C01", "Every accepted job ends in exactly one final report",
     "Once a client has been told 'accept' for a job, the broker keeps responsibility for that job until it has sent the frontend exactly one final status report (OK or FAILED) for it, whatever mix of worker registrations, completions, internal errors, timeouts, freezes and other jobs happens in between. No job is ever forgotten, reported twice, or reported without having been accepted (jobs a worker itself declares as already running when it registers are outside the 'exactly once' part). This holds for both queue managers.",
     ["histories"], "all histories of submissions, registrations, completions, errors, worker deaths, freezes, with either queue manager",
     "Tests replay single hand-written scenarios of 1-2 messages on pre-populated state, only with the multi-queue manager; loss and duplication need multi-step histories (queue + failure + death + re-registration).",
     [H, SQ, MQ], [("process_client_eval/process_worker_done/process_timer hand a request over between queue, worker and notifier", H), ("enqueue/assign/terminate/cancel move a request between containers", SQ + ", " + MQ)],
     [("worker_jobs_/current_requests_", "which request each worker is processing", SQ + ", " + MQ), ("jobs_/queues_", "waiting requests", SQ + ", " + MQ)], OUT)

prop("C02", "Each evaluation request gets ack, then one truthful accept or reject",
     "Every well-formed evaluation request is answered, to the requesting client only, with 'ack' followed by exactly one 'accept' or 'reject'. It is accepted if and only if the broker is not frozen and at least one currently registered worker satisfies all of the request's headers; a rejected job is never sent to any worker nor reported to the frontend. The decision does not depend on workers being busy, on other queued jobs, or on workers that have since been dropped.",
     ["histories", "inputs"], "all histories leading up to the request, all combinations of request headers and registered/dropped workers, both queue managers",
     "Tests submit jobs only to one idle or one busy matching worker; no test submits a job after workers were dropped or re-registered.",
     [H, SQ, MQ, W], [("process_client_eval", H), ("enqueue_request", SQ + ", " + MQ), ("check_headers", W)], None, OUT)

prop("C03", "Jobs only ever go to workers that satisfy all their headers",
     "Whenever the broker sends a job to a worker - directly on submission, from a queue when the worker becomes free or registers, or as a retry after an error or a worker's death - that worker is registered at that moment and its currently announced capabilities satisfy every header of the job.",
     ["histories", "inputs"], "all dispatch paths in all histories, all header/capability combinations of the bounded alphabet, both queue managers",
     "Existing tests check matching on isolated worker objects and use identical workers in broker tests, so the dispatch-from-queue, retry and reassignment paths never see an incapable worker.",
     [H, SQ, MQ, W], [("check_headers before assignment", SQ + ", " + MQ), ("process_worker_init updating a worker's announced headers", H)], None, OUT)

prop("C04", "A worker holds at most one job and a job is held by one worker",
     "The broker never sends a job to a worker that has not yet finished (or been dropped while holding) the job it was given before, including a job the worker declared as already running when it registered. A job the broker dispatched is never held by two registered workers at the same time.",
     ["histories"], "all histories of submissions, completions, failures, registrations and deaths, both queue managers",
     "Tests look at one assignment at a time; double assignment needs a particular order of failure, re-queueing and completion.",
     [H, SQ, MQ], [("busy test before assignment", SQ + ", " + MQ), ("worker_cancelled/worker_finished clearing the slot", SQ + ", " + MQ)], None, OUT)

prop("C05", "Failed attempts are retried up to the limit, then the job is given up",
     "An attempt that ends with a worker's internal error or with the death of the worker holding the job is retried on a capable worker as long as the number of failed attempts of that job is below the configured maximum and a capable worker is registered. When the maximum is reached the job is reported FAILED to the frontend at once and never dispatched again, so a job is dispatched at most that many times. A job the worker reports as FAILED is never retried, and waiting in a queue of a worker that dies does not count as a failed attempt.",
     ["histories", "fault_sequences", "configurations"], "all sequences of internal errors and worker deaths, all limits 1..3, both queue managers",
     "Tests preset the failure counter on a request object and take a single step; the counter is never driven across several failures of different kinds.",
     [H, SQ, MQ], [("failure_count increments and check_failure_count", H), ("reassign_request", H)], [("failure_count", "failed attempts of a request", "src/worker.h")], OUT)

prop("C06", "A worker is dropped exactly when it stays silent for the whole grace time",
     "A registered worker is dropped if and only if nothing at all has been received from it for max_liveness consecutive ping intervals of elapsed time: any message from it restarts the full grace period, silence is never forgiven (also right after registration), and one worker's traffic never affects another's deadline. Until it is dropped it is treated as registered; afterwards it is unknown until it registers again, and then gets a full grace period.",
     ["histories", "configurations"], "all interleavings of elapsed time slices with messages of 2 workers, all max_liveness 1..4",
     "Tests set the liveness field to 1 by hand and send one oversized timer message; accumulation, restart and freshly registered workers are never exercised.",
     [H], [("worker_timers_ and liveness bookkeeping in on_request/process_timer/process_worker_init", H)], [("liveness", "remaining missed pings", "src/worker.h"), ("worker_timers_", "time since last message or decrement", HH)], ["ping answered by pong (registered) or intro (unknown)"])

prop("C07", "When a worker dies its jobs move to survivors or are reported failed",
     "When a worker is dropped, every job it held or that only it could serve is, in that same step, either handed to / queued for a surviving capable worker (if one exists and the retry limit allows) or reported FAILED to the frontend. Jobs that other workers hold or can serve are not disturbed, and no job is sent to a worker that is being or has been dropped - also when several workers time out at the same moment.",
     ["histories", "fault_sequences"], "all subsets of up to 3 workers dying together, in all reachable states of queues and assignments, both queue managers",
     "Tests drop one worker with one job; simultaneous deaths, queued jobs of other header classes and repeated deaths are not covered.",
     [H, SQ, MQ], [("process_timer removal loop", H), ("worker_terminated", SQ + ", " + MQ), ("reassign_request", H)], None, OUT)

prop("C08", "Only the worker holding a job can complete it, and only once",
     "A completion message has an effect only if it comes from a registered worker and names the job that worker currently holds; a duplicate, late, mismatched or unsolicited completion (from an idle, busy-with-something-else or unknown worker) produces no report, no dispatch and no change to any job's fate. In particular completing the right job afterwards still works normally.",
     ["histories", "inputs"], "all histories with completions of any job id by any worker at any time, both queue managers",
     "Tests only send completions that match; no test sends a completion to an idle or dropped worker.",
     [H], [("identity lookup and job id comparison in process_worker_done", H)], None, OUT)

prop("C09", "No message content can crash the broker or stop it from serving others",
     "Whatever frames a client or worker sends - missing, empty, extra or malformed frames, unknown commands, non-numeric or oversized numbers, arbitrary bytes - in whatever state the broker is, it neither crashes nor lets an error escape, and it afterwards still registers new workers and takes jobs to completion as usual.",
     ["inputs", "histories"], "all messages up to 4 frames over a token alphabet with the boundary cases of the parser, from known and unknown senders, in a set of distinct broker states, and pairs of such messages",
     "Tests send only well-formed messages.",
     [H, W, MQ, SQ], [("frame count checks and header parsing", H), ("numeric conversion in count_matcher", W), ("command lookup", "src/reactor/command_holder.cpp")], None, ["process/exception outcome under AddressSanitizer+UBSan and a follow-up job"])

prop("C10", "Job payloads and progress messages are forwarded unchanged",
     "Every time a job is sent to a worker (first dispatch, from a queue, or retry) the message consists of the job's id and exactly the payload frames the client gave after the header separator, in order and byte for byte, including empty and binary frames, and nothing of the headers or metadata. A worker's progress message reaches the monitor with exactly its argument frames.",
     ["inputs", "histories"], "all payloads of up to 3 frames over a byte alphabet including empty frames and NUL bytes, on every dispatch path, both queue managers",
     "Tests use two fixed non-empty text frames and never compare the payload of a retried or queued job with binary content.",
     [H, "src/worker.h"], [("process_client_eval splitting headers from payload", H), ("job_request_data", "src/worker.h"), ("process_worker_progress", H)], None, OUT)

prop("C11", "Waiting jobs are served first come, first served",
     "With the single-queue manager, a worker that becomes available gets, among the waiting jobs it can serve, the one that was accepted first - also for long queues, for jobs accepted within the same clock tick, and across wall clock adjustments. With the multi-queue manager, the jobs placed on one worker's queue are given to it in the order in which they were accepted. Retried or relocated jobs may take a new place in the order, but never reorder the others.",
     ["histories", "inputs"], "all interleavings of submissions of two header classes with completions, queue lengths up to 64, clock frozen / advancing / stepping back",
     "Tests queue at most one job per worker.",
     [SQ, MQ, H], [("arrival order and sorting in assign_request", SQ), ("per worker std::queue", MQ)], [("arrived_at", "queueing order key", SQ)], OUT)

prop("C12", "No capable worker sits idle while a job waits for it",
     "Single-queue manager: after every event, no job is waiting that some registered idle worker could serve. Multi-queue manager: after every event, a worker without a job has an empty queue. Hence, as long as workers keep completing jobs, every accepted job for which a capable worker stays registered is eventually dispatched without any further external stimulus.",
     ["histories"], "all reachable states with up to 3 workers and 4 jobs under registrations, completions of all kinds, orphan jobs and deaths",
     "Tests check at most the first follow-up assignment after an OK completion.",
     [H, SQ, MQ], [("assign_request/worker_finished after each completion and registration", H + ", " + SQ + ", " + MQ)], None, OUT)

prop("C13", "Load is spread over equally capable workers",
     "Single-queue manager: a submitted job is sent to an idle capable worker immediately whenever one exists. Multi-queue manager: submissions that the same set of workers can serve are given to those workers in rotation, so that of any N consecutive such submissions with N capable workers each worker gets exactly one.",
     ["histories"], "all histories of submissions and completions with up to 4 workers",
     "The tests check one pair of submissions on two idle workers.",
     [SQ, MQ], [("first_idle_worker_selector", SQ), ("worker_queue_ rotation in enqueue_request", MQ)], None, OUT)

prop("C14", "A frozen broker takes no new jobs but finishes the old ones",
     "Between an acknowledged 'freeze' and the next acknowledged 'unfreeze' every evaluation request is acknowledged and then rejected without touching any worker, queue or the frontend, while everything else - completions, dispatch of already accepted jobs, retries, registrations, timeouts, statistics - goes on exactly as when not frozen. Unfreeze restores acceptance; both commands are idempotent and acknowledged to their sender.",
     ["histories"], "all histories with freeze/unfreeze at any point; differential against the same history without freezing",
     "One test freezes and submits once; unfreeze and the life of already accepted jobs while frozen are not tested.",
     [H], [("is_frozen_ check in process_client_eval", H)], [("is_frozen_", "frozen flag", HH)], OUT)

prop("C15", "Runtime statistics agree with what the broker did",
     "The statistics reply is a list of key/value pairs with a fixed set of keys: the evaluated counter equals the number of jobs completed OK, the failed counter the number of failure reports accepted from workers, the frozen flag the current freeze state. After each timer message the worker, idle-worker, in-progress and queued gauges equal the actual number of registered workers, of those without and with a job, and of waiting jobs.",
     ["histories"], "all histories up to the bound, statistics requested after every step",
     "No test requests statistics.",
     [H], [("runtime_stats_ updates", H), ("get_queued_request_count", SQ + ", " + MQ)], [("runtime_stats_", "counters", HH)], OUT)

prop("C16", "The monitor hears of every job the broker itself fails or moves",
     "The monitor gets exactly one FAILED for each job the broker rejects for lack of a capable worker or gives up itself (worker death, retry limit), exactly one ABORTED for each job taken from a dead worker and kept for another attempt, and the progress messages of workers. It gets nothing else; in particular outcomes that the worker itself reports to it (OK, FAILED, first internal errors) are not repeated.",
     ["histories", "fault_sequences"], "all histories of failures and deaths, both queue managers",
     "Tests cover one death with and without a substitute and one exhausted retry count.",
     [H], [("notify_monitor calls", H)], None, OUT)

prop("C17", "Registration handshake: one current registration per worker identity",
     "A ping from an unregistered worker is answered 'intro' and from a registered one 'pong', always to that worker only; an init makes it registered. Repeating the same init changes nothing and triggers no traffic; an init with different capabilities (headers or hardware group) is reported to the frontend as an error and from then on only the new capabilities count, the identity still being registered exactly once and its earlier jobs not being lost. A job declared as running at registration occupies the worker, is not sent to it again, and its completion is reported.",
     ["histories", "inputs"], "all histories of pings, inits (same/different headers, hwgroup, declared job), completions and deaths of 2 workers, both queue managers",
     "Tests register a worker once, or repeat the identical init; a changed init and declared jobs with the default queue manager are not tested.",
     [H, W, WR, SQ], [("process_worker_init/process_worker_ping", H), ("headers_equal", W), ("add_worker with current request", SQ + ", " + MQ)], None, OUT)

prop("C18", "Header matching means exactly what the protocol says",
     "A worker satisfies a set of required headers if and only if it satisfies each of them: 'hwgroup' if the worker's group is one of the '|'-separated alternatives, 'threads' if the required number is at most one the worker offers (values that are not numbers never match), any other header if the worker announced that exact name and value. The answer depends only on the worker's announcement and the required headers.",
     ["inputs"], "all hwgroup strings up to length 6 over {a,b,|}, all thread counts 0..20 plus numeric boundaries and malformed numbers, all subsets of a 6-header universe on both sides",
     "Tests check about a dozen literal pairs.",
     [W], [("header_matcher, multiple_string_matcher, count_matcher, check_headers", W)], None, ["worker acceptance of header sets"])

prop("C19", "Asynchronous handlers get every message once, in order, in any schedule",
     "Every message addressed to an asynchronous handler (such as a status report for the frontend) from the moment the handler was added is processed by it exactly once, in order, with all frames intact and by no other handler, under every interleaving of the reactor thread and the handler threads - including messages sent right after start-up or right before shutdown. Responses of asynchronous handlers reach the addressed socket or handler likewise once and in order while the loop runs.",
     ["schedules"], "all interleavings of reactor, 1-2 handler threads and environment with up to the stated number of preemptions and early timeouts, up to 3 messages per handler",
     "The reactor tests are timing dependent (sleep based) and flaky, and are not even part of the stable suite; they sample one schedule.",
     [R, RH], [("asynchronous_handler_wrapper over an in-process router/dealer pair", R)], None, ["messages seen by handlers and sockets"])

prop("C20", "Socket messages are routed intact to the right handler and peer",
     "Each message received on a registered socket is passed exactly once, with sender identity and all frames unchanged, to every handler subscribed to that socket and to no other; each response goes, unchanged and exactly once, to the peer and socket it is addressed to. No message - including one without data frames or with an unknown peer - can affect the framing or delivery of any other message.",
     ["inputs", "schedules"], "all sequences of up to 3-4 messages over sockets, peers and frame alphabets (empty, binary, zero frames, unknown peers)",
     "Tests pass single one-frame messages through a pair socket; the router wrapper's framing is not tested at all.",
     [R, RS], [("process_message/send_message", R), ("frame loops with SNDMORE", RS)], None, ["frames at the ZeroMQ API"])

prop("C21", "Termination always completes",
     "If termination of the event loop is requested at any time - before the loop starts, while it waits, or while it handles messages - the loop ends after at most finishing its current round, all handlers are destroyed and their threads joined; a reactor that is destroyed without its loop ever having run, or whose loop ended by an exception, also shuts down cleanly.",
     ["schedules"], "all interleavings of terminate() with loop start, polling and message handling, with 0-2 asynchronous handlers, to the stated preemption bound",
     "One timing-dependent test terminates 10 ms after start; it hangs under load.",
     [R, RH], [("termination_flag_", R), ("~asynchronous_handler_wrapper", R), ("member order", RH)], None, ["threads joined, no deadlock"])

prop("C22", "Reported elapsed time adds up to real time",
     "The timer messages the event loop gives to its handlers report, in sum, the time that has really passed since the loop started, to within one polling round, no matter how often messages interrupt the wait and how short each wait is. Every round of the loop delivers one timer message.",
     ["schedules", "inputs"], "all sequences of up to 6 polling rounds with durations from {0, 0.4, 0.6, 1, 1.5, 100 ms} and message arrivals",
     "The only timer test checks that at most one message arrives in 200 ms.",
     [R], [("elapsed time computation in start_loop", R)], None, ["timer messages"])

prop("C23", "Frontend reports survive transient HTTP failures and arbitrary text",
     "A status report is posted to the configured address, port and credentials, under the path of its type and job id, with a form body that decodes to exactly the report's remaining fields whatever characters they contain. A failed attempt (including failure to set up the transfer) is repeated after a pause, up to four attempts in all; after the first success there are no more; and no failure ever escapes to or stops the handler, which processes the next report normally.",
     ["fault_sequences", "inputs"], "all success/failure sequences of HTTP attempts for 2 consecutive reports, all texts up to length 3 over an alphabet with the form-encoding special characters",
     "No test touches the HTTP client or the notifier handler.",
     [SN, CU, RN], [("retry loop", SN), ("get_http_query, curl_post", CU)], None, ["libcurl API calls"])

prop("C24", "Configuration values are read independently, with defaults and errors",
     "Each documented configuration item, if present with a valid scalar value, determines exactly its own setting; an absent item (or one of a non-scalar type) leaves the documented default, independently of all other items. A scalar that is not valid for a numeric item, or a document that is not a map, is reported as a configuration error and nothing else.",
     ["configurations"], "all documents with up to 2 items (quick) or 3 items (thorough) set to each of valid/boundary/malformed/mistyped values, plus all-items documents",
     "Tests load one full document and three invalid ones.",
     [CF, "src/config/notifier_config.h", "src/config/log_config.h"], [("broker_config constructor", CF)], None, ["getters"])

prop("C25", "The assembled broker connects clients, workers, monitor and frontend",
     "The assembled broker listens for clients and workers and connects to the monitor at the configured addresses, and through those sockets behaves as the broker logic prescribes: requests on the client socket, registrations and completions on the worker socket and the passing of time all take effect, answers go back on the socket and to the peer concerned, monitor messages go to the monitor peer, and status reports reach the frontend over HTTP.",
     ["histories", "schedules"], "all message sequences up to the bound through the real reactor, sockets wrappers, handlers and notifier over a controlled ZeroMQ and HTTP environment",
     "No test instantiates the assembled broker.",
     [BC, R, RS, H, SN], [("socket and handler registration", BC), ("timer key shared with the reactor", BC)], None, ["ZeroMQ API and libcurl API calls"])

prop("C26", "Frontend reports tell the truth about the outcome",
     "A job is reported OK only when the worker holding it reported OK; it is reported FAILED only when that worker reported FAILED, when its retries are used up, when it cannot be retried (its content is unknown to the broker) or when no capable worker is left. The report names the right job, and a FAILED report carries a message that includes the worker's own explanation if it gave one.",
     ["histories", "fault_sequences"], "all histories of completions of every status with any queue content, deaths and retries, both queue managers",
     "Tests check each report once in isolation with one job in the system.",
     [H, RN], [("status_notifier calls in process_worker_done/process_timer/check_failure_count", H), ("message layout", RN)], None, OUT)

prop("C27", "Queue managers keep their contract for any sequence of operations",
     "For any order of registering workers (idle or with a job), enqueueing, finishing, cancelling, assigning and terminating, both queue managers account for every request exactly once: it is the current request of one worker, is waiting, or has been handed back to the caller. A request is assigned only to a registered, idle and capable worker; enqueueing succeeds exactly if a registered worker is capable; terminating returns the worker's current request and exactly the requests that no longer have a queue; registering a busy worker assigns nothing; the queued count equals the number of waiting requests.",
     ["histories"], "all operation sequences up to the bound with up to 3 workers and 4 requests in 2-3 header classes, and a fixpoint search over reachable abstract states",
     "Tests run about seven fixed operation sequences per manager.",
     [SQ, MQ, QI], [("queue_manager_interface implementations", SQ + ", " + MQ)], None, ["return values of the queue manager interface"])

prop("C28", "The program starts with the configured queue manager or refuses to start",
     "Started with a readable configuration, the program runs the broker with the queue manager named there (single by default, or multi) and the command line's configuration file; an unknown manager name, unreadable or invalid configuration or bad command line ends it with an error exit before any socket is opened.",
     ["configurations"], "all combinations of command line forms, configuration documents and queue manager names of the alphabet",
     "The start-up code is not compiled, let alone run, by any test.",
     [CORE, "src/main.cpp"], [("parse_params, load_config, broker_init", CORE)], None, ["exit status, sockets opened, observable queueing discipline"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
