"""Writes properties.jsonl (kept as code so that it is easy to revise)."""
import json, os

SVC = 'src/nagini_translation/service.py'
VS = 'src/nagini_translation/viper_server.py'
LSP = 'src/nagini_translation/lsp_server.py'
MCP = 'src/nagini_translation/mcp_server.py'
MAIN = 'src/nagini_translation/main.py'
VER = 'src/nagini_translation/verifier.py'
ERR = 'src/nagini_translation/lib/errors/manager.py'
CFG = 'src/nagini_translation/lib/config.py'
TI = 'src/nagini_translation/lib/typeinfo.py'
JVM = 'src/nagini_translation/lib/jvmaccess.py'
CLI = 'src/nagini_translation/client.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))


prop('C01', "Concurrent verifications never influence each other's answers",
     "When several verification requests run at the same time in one process, each one gets exactly the answer (success or failure, and the set of diagnostics with their files, positions, messages, reasons and counterexamples) that the same request gets when it runs alone on the same file contents and options. A request's answer never contains a diagnostic that belongs to another request.",
     ['schedules', 'inputs'],
     'For every set of overlapping requests, every mix of files and options, and every interleaving of their translation, submission, waiting and error conversion.',
     'The existing concurrency test starts three copies of one file and observes whichever interleaving the machine happens to produce; the breaking interleaving (a second translation between the first one\'s translation and its error conversion) is never forced, and without the Viper jar the test is skipped.',
     [SVC, ERR, MAIN, VS],
     [('state lock around translation and error conversion', SVC + ': _verify_concurrent'),
      ('per-request snapshot of the error map', SVC + ': _verify_concurrent'),
      ('one process-wide error map', ERR + ': ErrorManager')],
     [('error map', 'node id -> Python position/rules of the current translation', ERR),
      ('in-flight job table', 'token -> running job', SVC)],
     ['return value of verify', 'diagnostics published to the editor', 'tool results'])

prop('C02', "Success is reported only for a program the verifier accepted",
     "A request is reported as successfully verified only if the complete translated program of that request was verified by a backend run that finished without errors. No fault (backend crash, time-out, lost or cancelled job, failed submission, failed translation, full server, interrupted call) ever turns into a success, and no verification error the backend reports is dropped from the answer.",
     ['fault_sequences', 'schedules', 'inputs'],
     'For every program, configuration and frontend, and every sequence of faults striking any step of the request or of requests running beside it.',
     'Unit tests run the healthy path on small programs; none makes the backend crash, time out, reject a job or lose it, and the suite that calls a real backend does not run without the Viper jar.',
     [SVC, MAIN, VER, VS, ERR],
     [('success only when the backend result is not a failure', SVC + ': _verify_concurrent, _verify_serial'),
      ('exceptions mapped to failed results', MAIN + ': verify, translate_and_verify'),
      ('error conversion keeps every error', ERR + ': convert')],
     observe=['return value of verify', 'printed verdict', 'replies of the servers'])

prop('C03', "Answers do not depend on what the process handled before",
     "In a long-lived server process, the answer to a request (and the checks the encoding includes for it, such as liveness obligations) is the one a freshly started process with the same configuration gives. Earlier requests - successful, rejected by the type checker, failed inside translation, aborted by a backend fault, or made with other options - leave nothing behind that changes it.",
     ['histories', 'fault_sequences'],
     'For every sequence of earlier requests, options, configuration changes and faults, and every later request.',
     'Tests verify each file in one process in one fixed order and compare with expectations that were recorded in that order; state leaking from a particular predecessor needs that predecessor.',
     [SVC, MAIN, ERR, CFG, TI, 'src/nagini_translation/sif/lib/util.py'],
     [('obligation auto-detection reset before each request', SVC + ': _reset_obligations'),
      ('error map cleared per translation', MAIN + ': translate'),
      ('resources reloaded when their options change', SVC + ': reconfigure'),
      ('type checker hook restored after each check', TI + ': TypeInfo.check')],
     [('obligation switch', 'process-wide; set by the first program without obligations', CFG),
      ('parsed resources', 'process-wide built-in Viper program', MAIN)],
     ['return value of verify', 'program submitted to the backend', 'server replies'])

prop('C04', "A fault is contained in the request it strikes",
     "Every verification request ends with a structured result, whatever fault strikes it; the result says that it failed or was cancelled, and no exception escapes to the caller. Once faults stop, every later request is answered normally and within bounded time, in the same process and without restarting anything.",
     ['fault_sequences', 'schedules', 'histories'],
     'For every sequence of backend crashes, time-outs, rejected or lost jobs, resource-loading failures, malformed or unreadable files and internal translation errors, at every point, and every request afterwards.',
     'No existing test injects a fault into a request and then issues another one; a lock left held or state left installed shows only in that sequence.',
     [SVC, MAIN, VS, VER, ERR],
     [('locks released on every path', SVC), ('error map cleared in finally', SVC + ': _verify_concurrent'),
      ('backend exceptions turned into results', SVC + ', ' + MAIN)],
     observe=['return value of verify', 'completion of later requests'])

prop('C05', "Cancelling a run stops that run and nothing else",
     "For verifications run by the backend server: cancelling by token stops the running verification that carries this token, promptly and wherever it is in its processing, and it then reports that it was cancelled, never success or a verification failure it did not have; cancelling without a token does so for every running verification. No other request is disturbed, a cancellation for a token that is not running has no effect on any later request, and a verification nobody cancelled is never reported as cancelled.",
     ['schedules', 'histories', 'fault_sequences'],
     'For every placement of cancellations relative to the phases of running requests (waiting, translating, submitting, verifying, converting, finished), including reused tokens.',
     'The existing test cancels one job after it has been seen in flight; a cancellation racing with translation, submission, completion or token reuse is not produced, and the test is skipped without the Viper jar.',
     [SVC, VS, LSP, MCP],
     [('token to job table with its own lock', SVC + ': _jobs'),
      ('per-job stop message', VS + ': cancel_job'), ('interrupt all', VS + ': cancel_all')],
     [('in-flight job table', 'token -> running job', SVC)],
     ['result of the cancelled request', 'results of the others', 'jobs seen by the backend'])

prop('C06', "Each request runs under one consistent configuration",
     "Every verification runs entirely under a single configuration that was in effect at some moment while the request was being made - backend, prover paths, bit width, float encoding, information-flow mode, branch-condition reporting and the loaded built-in resources all belong together - and requests already running are unaffected by a change. A configuration change takes effect for every request made after it is acknowledged, the reported effective configuration is the one in use, and a change that fails leaves the previous configuration fully in effect.",
     ['schedules', 'configurations', 'fault_sequences', 'histories'],
     'For every sequence of configuration changes racing with requests in any phase, every combination of options, and every failure while a change is applied.',
     'Tests change the configuration only between requests, with one thread and healthy resources; a change between a request\'s translation and its submission is never produced.',
     [SVC, MAIN, VER, CFG],
     [('configuration changed under the state lock', SVC + ': reconfigure'),
      ('resources reloaded together with their options', SVC + ': reconfigure'),
      ('backend arguments built per request', VER + ': build_silicon_backend_args')],
     [('service options', 'backend, bit width, float encoding, sif, branch conditions', SVC),
      ('global paths', 'prover, Boogie and type checker paths, server use', CFG)],
     ['arguments and program submitted to the backend', 'effective configuration returned to the client'])

prop('C07', "The editor ends up showing the newest run's diagnostics",
     "For each open document, once no verification of it is running, the diagnostics last published (and used for hovers) are those of the most recently requested run that was neither cancelled nor prevented from running. An older run never overwrites the result of a newer one, and diagnostics are published only under the document they belong to.",
     ['schedules', 'histories', 'fault_sequences'],
     'For every sequence of open, save, verify-method and edit events on several documents, every relative speed of the runs, and every fault in between.',
     'The language-server tests call single helper functions; none lets two runs of one document overlap, which needs the older run to finish last.',
     [LSP, SVC],
     [('older run of the document cancelled by token', LSP + ': run_verification'),
      ('cancelled runs do not publish', LSP + ': run_verification')],
     [('last diagnostics', 'document -> diagnostics shown on hover', LSP)],
     ['published diagnostics', 'hover replies'])

prop('C08', "The language server stays responsive and accounts for every run",
     "While verifications run, stall or fail, the language server keeps answering hover, code-lens, shutdown and other requests without waiting for them. Every verification request that was not superseded ends in exactly one visible outcome (published diagnostics, or an error message), and when the verification service cannot be started the failure is reported, the service is never started twice concurrently, and a later request tries again.",
     ['schedules', 'fault_sequences', 'histories'],
     'For every mix of document events, requests and cancellations, every delay of start-up and verification, and every failure of start-up or of a run.',
     'Tests exercise helper functions without a running server, event loop or service; responsiveness and lazily racing start-up exist only with concurrent requests.',
     [LSP, SVC],
     [('verification off the event loop', LSP + ': run_verification'),
      ('double-checked lazy start', LSP + ': ensure_service'),
      ('failure reported to the client', LSP + ': run_verification')],
     observe=['protocol messages sent to the editor', 'time to answer'])

prop('C09', "Standard output of the protocol servers carries only protocol",
     "While the language server or the tool server runs over standard input and output, every byte it writes to standard output belongs to a well-formed protocol message. Nothing the verifier, its libraries, warnings, stack traces or progress output produce, on any path including faults, reaches standard output.",
     ['fault_sequences', 'inputs', 'schedules', 'configurations'],
     'For every program, option, counterexample, configuration and fault on either server.',
     'Tests never run the servers over their real transport, and the stray output sits on fault paths and unusual inputs that healthy runs do not reach.',
     [LSP, MCP, SVC, MAIN, JVM, 'src/nagini_translation/models/extractor.py', 'src/nagini_translation/translators/program.py'],
     [('backend output redirected to standard error', JVM + ': configure_java_logging / JVM')],
     observe=['bytes on standard output'])

prop('C10', "Inline snippets are isolated, available while verified, and cleaned up",
     "An inline snippet is verified exactly as given, in a private place that no other request can see or overwrite, and which exists for as long as the verification uses it. When the request is over - normally, by error, by cancellation from the client, or because the server is shut down, also in the middle of a verification - that place is removed from disk.",
     ['schedules', 'fault_sequences', 'histories'],
     'For every set of overlapping snippet requests, client-side cancellations at any moment, write failures and backend faults.',
     'The tool-server test only checks option mapping; deletion racing with a verification needs a client cancellation at the right moment.',
     [MCP, SVC],
     [('fresh temporary directory per call', MCP + ': verify_snippet'),
      ('removal in finally', MCP + ': verify_snippet')],
     observe=['tool results', 'temporary directory contents'])

prop('C11', "The socket server gives each client exactly its own reply and survives",
     "In socket-server mode every request, well-formed or not, gets exactly one reply, sent to the client that made it and describing its file and selection. No request content and no fault while serving it stops the server: the next client is served normally.",
     ['fault_sequences', 'histories', 'inputs', 'schedules'],
     'For every sequence of clients and requests, including malformed ones, missing files and programs that fail in translation, and every backend fault.',
     'No test starts the socket server; a request that kills it or an unanswered client needs a particular bad request followed by another.',
     [MAIN, CLI],
     [('receive, verify, send loop', MAIN + ': main'), ('request parsing', MAIN + ': _parse_client_request')],
     observe=['replies received by clients', 'liveness of the server'])

prop('C12', "The backend server is started once, falls back cleanly, and is stopped",
     "The in-process backend server is started at most once per process lifetime at a time, is used for every eligible request while it runs, and is stopped together with its threads when the frontend ends, whatever happened in between. If it cannot be started, requests are verified by the direct backend with exactly the same options and the same answers, and flushing or cancelling is harmless.",
     ['fault_sequences', 'schedules', 'configurations', 'histories'],
     'For every failure or delay of starting, stopping, flushing and interrupting the server, every configuration, and every interleaving of requests with them.',
     'Tests use one healthy server per session; failing or slow start-up, racing starts and failing shutdown are not produced.',
     [VS, SVC, MAIN, LSP, MCP],
     [('started flag', VS + ': start'), ('process-wide manager', VS + ': get_viper_server_manager'),
      ('fallback to the direct backend', MAIN + ': get_verifier'),
      ('stop in the frontends', SVC + ': shutdown, ' + MAIN + ': main')],
     observe=['backend servers and thread pools alive', 'arguments given to the backend'])

prop('C13', "A slow or stalled verification never holds up other requests",
     "While the backend works on, stalls in, or never finishes one or more verifications through the backend server, other verification requests, cancellations, configuration changes and status calls of the verification service complete in time that does not depend on the slow ones.",
     ['schedules', 'fault_sequences'],
     'For every set of stalled verifications up to the documented number of parallel workers less one, at any time, and every operation issued beside them.',
     'No test makes a verification stall; whether another one waits for it depends on where the first one stalls.',
     [SVC, VS, LSP, MCP],
     [('backend run outside the state lock', SVC + ': _verify_concurrent'),
      ('cancellation without the state lock', SVC + ': cancel'),
      ('worker pools of the frontends', LSP + ', ' + MCP)],
     observe=['simulated completion times'])

prop('C14', "Answers do not depend on leftovers on disk or on process randomness",
     "The answer for a file depends only on its sources and the options: it is the same with a cold, warm or stale type-checker cache, with cache files that are missing, truncated, garbled (no longer the JSON document they were), unreadable, unwritable or concurrently rewritten, after a run that crashed at any point while writing that cache, and under any hash randomisation. A file that imports no other file of its project is answered the same from any working directory.",
     ['crash_points', 'fault_sequences', 'histories', 'configurations'],
     'For every earlier use of the directory, every edit between runs, every crash point and damage of the cache files, and every hash seed.',
     'Tests run each file once in a healthy directory under one hash seed; none edits, crashes and re-runs in the same directory.',
     [TI, 'src/nagini_translation/analyzer.py', MAIN],
     [('cache bypassed for analysed modules', TI + ': my_find_cache_meta'),
      ('separate caches per strictness', TI + ': _create_options')],
     observe=['verdict and diagnostics of each run'])

prop('C15', "The command line exits with success only after a successful verification",
     "The command-line tool ends by itself with exit status zero if and only if the file was verified successfully (or, when verification was not requested, translated successfully), and prints the matching verdict. Any failure or fault in start-up, translation, the backend or the output that prevents the verdict gives a non-zero status (a backend server that cannot be started is replaced by the direct backend, and a fault while shutting down does not change the verdict), and the process never hangs on leftover backend threads.",
     ['fault_sequences', 'inputs', 'configurations'],
     'For every program, option combination and fault at any step of the run.',
     'Tests call the translator as a library and never look at the exit status, and no fault is injected into start-up, verification or shutdown.',
     [MAIN, VS, VER],
     [('exit status from the verdict', MAIN + ': main'), ('backend stopped and hard exit', MAIN + ': main')],
     observe=['exit status', 'printed verdict', 'threads alive at exit'])

prop('C16', "A file edited during its verification is answered for one version of it",
     "When source files change on disk while a request for them is being processed, the answer is the one for contents the files had on disk during the request - each file taken in exactly one version, for type checking, analysis and error positions alike - never for a mixture of versions of one file and never an internal error that no version causes (a file that is missing for a moment may also be reported as missing). A request made after the change is answered for the new contents.",
     ['schedules', 'crash_points', 'histories'],
     'For every moment at which the file (or a module it imports) is replaced while a request runs, and every pair of versions.',
     'Tests never modify a file while it is being verified; the window between type checking and analysis is hit only by timing.',
     [TI, 'src/nagini_translation/analyzer.py', MAIN, SVC],
     [('type checker reads the file', TI + ': check'), ('analyser reads the file again', 'src/nagini_translation/analyzer.py: collect_imports')],
     observe=['verdict and diagnostics'])

prop('C17', "The tool server answers every call once, promptly, and for that call",
     "Every call of a tool gets exactly one reply, and the reply describes the file, selection and options of that call. While verifications run, stall or fail, and whatever malformed or unknown requests arrive, the server keeps answering calls that need no verification without waiting for the running ones, a configuration change returns the configuration then in effect, and the server ends by itself when the client is gone.",
     ['schedules', 'fault_sequences', 'histories', 'inputs'],
     'For every sequence of tool calls, malformed input and reconfigurations, every speed of the verifications, and every backend fault, including verifications and interrupts that never return.',
     'The tool-server tests call the tool functions directly, one at a time; the event loop, the transport and a call beside a stalled one never occur.',
     [MCP, SVC],
     [('verifications in worker threads', MCP + ': _run'), ('waiting tools in threads', MCP + ': _blocking_tool'),
      ('option mapping', SVC + ': options_to_kwargs')],
     observe=['replies to the agent', 'simulated reply times', 'end of the process'])

# -- properties outside the reach of simulation (listed as not applicable)

def na(id, title, statement, over, text, why, files, mech):
    prop(id, title, statement, over, text, why, files, mech)


na('C30', "A verified program satisfies its contracts",
   "If a program is reported as verified, then no execution of it that satisfies the assumed contracts violates an assertion, precondition, postcondition, invariant or permission, or raises an undeclared exception.",
   ['programs', 'inputs'], 'For every accepted Python program and every execution of it.',
   'Tests compare verdicts for a fixed corpus of programs.',
   ['src/nagini_translation/translators', 'src/nagini_translation/resources'],
   [('translation to Viper', 'src/nagini_translation/translators'), ('axiomatised built-ins', 'src/nagini_translation/resources')])
na('C31', "Errors are mapped to the Python construct that caused them",
   "Each backend error is reported at the file, line and column of the Python construct it stems from, with the Python-level message and reason.",
   ['programs'], 'For every program and every error the backend can report for it.',
   'Tests check annotated errors of a fixed corpus.', [ERR, 'src/nagini_translation/lib/errors/wrappers.py'],
   [('node map and conversion rules', ERR)])
na('C32', "Unsupported or ill-formed programs are rejected",
   "A program that uses constructs outside the supported subset, or misuses the specification language, is rejected with a located message and never translated with a different meaning.",
   ['programs'], 'For every program outside the supported subset.',
   'Tests list selected rejected programs.', ['src/nagini_translation/analyzer.py', 'src/nagini_translation/translators'],
   [('checks during analysis and translation', 'src/nagini_translation/analyzer.py')])
na('C33', "Verified programs terminate, keep their promises and do not deadlock",
   "If obligations are checked and a program verifies, every method that promises termination terminates, every obligation is discharged and no deadlock on locks or joins is possible.",
   ['programs', 'schedules'], 'For every verified program and every schedule of its threads.',
   'Tests check a fixed corpus.', ['src/nagini_translation/translators/obligation'],
   [('obligation encoding', 'src/nagini_translation/translators/obligation')])
na('C34', "Verified secure-information-flow programs leak nothing",
   "A program verified in information-flow mode does not let high inputs influence low outputs, including through termination and timing where that mode covers them.",
   ['programs', 'inputs'], 'For every verified program and every pair of executions with equal low inputs.',
   'Tests check a fixed corpus.', ['src/nagini_translation/sif'], [('product encoding', 'src/nagini_translation/sif')])
na('C35', "Verification of a selection covers exactly the selected parts",
   "Selecting functions, methods or classes verifies exactly those and relies on the specifications, not the bodies, of the rest.",
   ['programs', 'configurations'], 'For every program and selection.',
   'Tests try a handful of selections.', ['src/nagini_translation/translators/program.py'],
   [('program slicing', 'src/nagini_translation/translators/program.py')])
na('C36', "Counterexamples describe a failing execution",
   "A reported counterexample assigns Python-level values that are consistent with the failing path of the backend model.",
   ['programs'], 'For every failing program with a model.', 'Tests check a fixed corpus.',
   ['src/nagini_translation/models'], [('model extraction', 'src/nagini_translation/models')])
na('C37', "Extraction of ghost code preserves the program",
   "Removing ghost code yields a program with the same observable behaviour as the original, and ghost code never influences regular code.",
   ['programs', 'inputs'], 'For every accepted program with ghost code.', 'Tests check a fixed corpus.',
   ['src/nagini_translation/ghost'], [('ghost checker and extractor', 'src/nagini_translation/ghost')])
na('C38', "Contract annotations do not change how a program runs",
   "Executing an annotated program with the ordinary interpreter behaves as if the annotations were absent.",
   ['programs', 'inputs'], 'For every annotated program and input.', 'Not covered beyond imports.',
   ['src/nagini_contracts'], [('no-op contract functions', 'src/nagini_contracts/contracts.py')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            for fn in p['anchors']['files']:
                assert os.path.exists('/repo/' + fn), fn
            f.write(json.dumps(p) + '\n')
