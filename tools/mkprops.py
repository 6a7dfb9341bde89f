#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (source of truth for the property texts).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
L='goroutines/limited/goroutines.go'; PO='goroutines/pooled/goroutines.go'; G='goroutines/goroutines.go'
R='goroutines/internal/register/register.go'; W='prim/wait/wait.go'; S='prim/slices/slice.go'; SO='prim/slices/options.go'
C='prim/chans/chans.go'; CO='prim/chans/options.go'; A='prim/atomics/atomics.go'
SP='pipelines/stagedpipe/stagedpipe.go'; ST='pipelines/stagedpipe/stats.go'; Q='pipelines/stagedpipe/internal/queue/queue.go'

p("C01","Pools never run more jobs at once than their size",
  "At no moment are more than `size` jobs that were submitted without the NonBlocking option executing in a pool created with that size. Capacity is never lost either: whenever fewer than `size` such jobs are executing or about to, a further blocking Submit is able to proceed.",
  ["schedules","histories"],"every pool size, every number of submitters and jobs, every interleaving of Submit, job start and job end",
  "The tests submit 1000 instant jobs and look at the results; nothing observes how many run at once, and a limit is a statement about all interleavings.",
  [L,PO],[("slot taken on the queue channel before the job's goroutine is started, given back when the job ends",L+": Pool.Submit"),("exactly size worker goroutines",PO+": New, runner")],
  [("queue","semaphore of capacity size / hand-over channel to the workers",L+" and "+PO)],["jobs executing inside a pool"])
p("C02","A submitted job runs exactly once, a refused one never",
  "If a pool's Submit returns nil, the job is executed exactly once, with the Context that was given to Submit. If Submit returns an error (nil job, an option that failed, an option of the other kind of pool), the job is never executed and the pool is left as it was.",
  ["schedules","inputs","histories"],"every job, Context, option list and schedule of both pool implementations",
  "Tests use jobs that set a flag, so running a job twice, with another Context, or after an error is not visible to them.",
  [L,PO,G],[("Submit hands the job to one goroutine or to one worker",L+": Pool.Submit; "+PO+": Pool.Submit, runner"),("options check the pool type",L+": NonBlocking, Caller; "+PO+": NonBlocking, Caller")])
p("C03","Pool Wait and Close return only after all submitted jobs finished",
  "Wait and Close of a pool do not return while a job whose Submit returned before the call is still running or still queued, and they do return once all of them have finished. After Close all goroutines of the pool end.",
  ["schedules","histories"],"every schedule and every mix of blocking and non blocking submissions, both pools",
  "The tests check the results of jobs after Wait on one schedule; a job registered too late or marked as done too early only shows in rare interleavings.",
  [L,PO],[("WaitGroup incremented before Submit returns, decremented after the job returned",L+": Pool.Submit; "+PO+": Pool.Submit, runner"),("Close waits before closing the queue",L+": Pool.Close; "+PO+": Pool.Close")])
p("C04","NonBlocking submissions never wait for pool capacity",
  "Submitting a job with the NonBlocking option never blocks and the job starts without waiting for another job of the pool to finish, however busy the pool is. In a limited pool it does not use up capacity of the pool.",
  ["schedules","histories"],"every pool state, including all workers busy and jobs that wait for the job they submit",
  "The only test uses a zero value pooled.Pool without workers; busy pools and nested submissions are not exercised.",
  [L,PO],[("no slot is taken for NonBlocking",L+": Pool.Submit"),("a goroutine is started if no worker is ready to receive",PO+": Pool.Submit, New")])
p("C05","Pool Running and Len report the true values",
  "Running counts every accepted job that has not finished, no job twice and none that was refused; when Wait returns and nothing else was submitted it is 0. Len is the size that the pool was created with.",
  ["schedules","histories"],"every history of submissions on both pools, at every moment",
  "No test looks at Running or Len of a pool.",
  [L,PO],[("running incremented with the WaitGroup and decremented before it is done",L+": Pool.Submit; "+PO+": Pool.Submit, runner"),("Len",L+": Pool.Len; "+PO+": Pool.Len")])
p("C06","Registered pools have unique, valid names and creation terminates",
  "New returns an error for a size below 1 or a name with whitespace, digits or hyphens, and otherwise always returns a pool: every pool with a non-empty name is registered under a name that no other open pool has, which is the requested name or the requested name followed by a hyphen and a number. Registering never replaces another pool's entry and Close removes the pool's own entry.",
  ["inputs","histories","schedules"],"every name, every set of pools already open (including many of the same base name), every interleaving of New and Close",
  "Each test creates at most one pool per name, so name conflicts never happen in them.",
  [R,L,PO],[("check and insert under one lock",R+": Register"),("next name",R+": NewName"),("retry loop",L+": New; "+PO+": New")],
  [("registry","open pools by name",R)])
p("C07","goroutines.Errors records every error, in order, without races",
  "Every error passed to Record of a goroutines.Errors by any goroutine is in what Errors returns afterwards, in the order of recording, and Error returns the first of them or nil if there is none. All methods can be called concurrently without a data race, and what Errors returned earlier is not changed by later calls nor can it be used to change what is recorded.",
  ["schedules","histories","inputs"],"every history and interleaving of Record, Error and Errors",
  "There is no test of goroutines.Errors.",
  [G],[("all access to the errors is under the mutex",G+": Errors.Record, Errors.Error, Errors.Errors")])
p("C08","wait.Group runs each function once and Wait waits for all of them",
  "Each function passed to Go of a wait.Group is called exactly once with its Context, unless that Context was already cancelled when its turn came, in which case it is not called and the Context's error is recorded. Wait does not return before every function passed to Go has returned, with and without a pool, and does return once they all have.",
  ["schedules","histories","configurations"],"every schedule, number of functions, kind of pool and moment of cancellation",
  "Tests run five functions in a single schedule per configuration.",
  [W],[("wg.Add before the goroutine or job is started, Done deferred in it",W+": Group.Go"),("wg.Wait",W+": Group.Wait")])
p("C09","wait.Group.Wait returns every error",
  "Wait returns nil exactly when no function returned an error and none was skipped because of a cancelled Context. Otherwise every error returned by a function, from any number of goroutines at once, is found in the returned error by errors.Is, with the exception that context.Canceled and context.DeadlineExceeded are only kept if they came first.",
  ["schedules","histories","inputs"],"every set of errors and every interleaving of the goroutines that record them",
  "The tests have one error in a run; lost updates and lost errors need several at once.",
  [W],[("compare and swap loop that joins the errors",W+": applyErr"),("error recorded before the goroutine is done",W+": Group.Go")])
p("C10","wait.Group cancels on error, counts its functions and can be reused",
  "If CancelOnErr is set it is called when a function returns an error and in any case before Wait returns. Running is never negative and never less than the number of functions being executed. After Wait the Group is as new: Running is 0 and stays 0, errors and CancelOnErr of the earlier use are gone, and it can be used again.",
  ["schedules","histories"],"every interleaving of finishing functions with Wait and every sequence of uses",
  "The tests never use a Group twice and read Running once after Wait.",
  [W],[("CancelOnErr after an error",W+": Group.Go"),("count changed before the goroutine is done",W+": Group.Go"),("reset",W+": Group.Wait, reset")])
p("C11","RWValue is a linearizable value: no lost or invented updates",
  "Load returns the zero value or the value of the most recent completed Store or LoadReplace, never waiting for a writer. LoadReplace calls its function exactly once with the current value (the zero value if there is none), during which no other writer changes it; the value returned by the function becomes the current value if and only if its error is nil, and its error is returned.",
  ["schedules","histories","inputs"],"every value type, every history and interleaving of Load, Store and LoadReplace, including the very first operation",
  "The test runs an identity LoadReplace after a Store and prints what it reads; lost updates are not visible with it and the unset value is never replaced.",
  [A],[("writers hold mu from reading to storing",A+": RWValue.LoadReplace, RWValue.Store"),("readers use one atomic load",A+": RWValue.Load")])
p("C12","slices.Access visits every index once and returns after all visits",
  "If slices.Access returns nil, the Accessor was called exactly once for every index of the slice with the value at that index; in no case is it called twice for an index or with an index or value that do not belong together. The Modifier it is given assigns exactly that element, and no Accessor is running any more when Access returns.",
  ["schedules","inputs","histories"],"every slice length, element type, Accessor, pool and cancellation moment",
  "Tests use slices of five elements, no options, and no cancellation.",
  [S],[("one Go per index",S+": Access"),("modifier",S+": modifier"),("Wait before every return",S+": Access")])
p("C13","slices and chans return the first error and honour their options",
  "If any call of an Accessor or Modifier fails, slices.Access, chans.Access and chans.Modify return an error that contains that failure and not just the cancellation it caused; without the stop option a failure does not stop the processing of other elements, with it no new element is started once the failure is noticed. With the pool option the given pool and submit options are used; if the Context is cancelled before everything was processed an error is returned.",
  ["inputs","schedules","configurations"],"every combination of options, failing elements and interleavings",
  "No test passes any option or cancels a Context.",
  [S,SO,C,CO],[("options applied to the struct",S+": Access; "+SO+"; "+C+": Access; "+CO),("CancelOnErr of the wait.Group",S+": Access; "+C+": Access")])
p("C14","chans.Access processes every received value once, then returns",
  "chans.Access calls the Accessor exactly once for each value it takes off the input, with that value, unless the Context is cancelled; it returns nil only if the input was closed and everything taken off it was processed. It stops waiting for input when the Context is cancelled, and no Accessor is running any more when it returns.",
  ["schedules","inputs","histories"],"every stream of values, every schedule, every moment of closing and cancelling",
  "There is no test of chans.",
  [C],[("select on input and Context",C+": Access"),("one Go per value, Wait before return",C+": Access")])
p("C15","chans.Modify gives one result per value and closes its output last",
  "For each value for which chans.Modify calls the Modifier exactly one result with the value or the error the Modifier returned is sent on the output, except that an error may be dropped from the output if the Context is cancelled. The output is closed exactly once when Modify returns and never before all results were sent; nil channels are refused with an error and not touched.",
  ["schedules","inputs","histories"],"every stream of values, every mix of errors and every schedule",
  "There is no test of chans.",
  [C],[("sends inside the Accessor, deferred close",C+": Modify")])
p("C16","A Request follows its StateMachine, with every rule applied",
  "Each Request is executed from Start through exactly the Stages that its Stages select with Next, ends when Next is nil or Err is set, and is output as its last Stage returned it. Before every Stage all PreProcessors run once each in the order given, with Next reset first so that a Stage that sets nothing ends the Request; once Err is set no further PreProcessor or Stage is run for that Request, and when the Request's Context is cancelled by the time a Stage's turn comes neither that Stage nor its PreProcessors run and the Context's error becomes its Err.",
  ["programs","inputs","schedules"],"every StateMachine, routing, list of PreProcessors and Request",
  "Tests use fixed two stage state machines without PreProcessors.",
  [SP],[("stage loop",SP+": pipeline.processReq"),("stage execution",SP+": pipeline.execStage, resetNext")])
p("C17","DAG pipelines never run a Stage twice for a Request",
  "With the DAG option no Stage is executed a second time for the same Request: instead the Request leaves with an error that IsErrCyclic recognises. A Request that does not repeat a Stage never gets that error, whatever other Requests are in the pipelines or went through them before, and without the DAG option it is never given.",
  ["programs","histories","schedules"],"every routing, every Request history (also from one set of Pipelines to another) and every interleaving of Requests",
  "The test counts cyclic errors of four Requests; it does not see a Stage running twice before the error nor state carried over from other Requests.",
  [SP],[("seen before a stage is executed",SP+": seenStages.seen, pipeline.execStage"),("reuse of seenStages",SP+": seenStages.reset, pipeline.processReq")])
p("C18","Every submitted Request comes out once, on its own RequestGroup",
  "A Request for which Submit returned nil is received exactly once on the Out channel of the RequestGroup it was submitted to and on no other; one for which Submit returned an error is never received. Submit gives up when the Request's Context is cancelled and refuses a nil Context; RequestGroup.Close returns only after all its submitted Requests were processed, and then Out is closed.",
  ["schedules","histories"],"every number of RequestGroups, Requests and pipelines, creation and closing of groups at any time, every interleaving",
  "Tests use one RequestGroup at a time and the amounts they use hit one schedule.",
  [SP],[("group number given at Submit and used by the demuxer",SP+": RequestGroup.Submit, New"),("forwarding goroutine of a group",SP+": Pipelines.NewRequestGroup"),("one send per receive",SP+": pipeline.runner"),("Close",SP+": RequestGroup.Close")])
p("C19","Ordered pipelines output in the order of submission, without gaps",
  "With the Ordered option the Requests of a RequestGroup are output in the order in which they were successfully submitted, all of them, also if the Submit of some other Requests of the group failed.",
  ["schedules","histories","fault_sequences"],"every processing order of the pipelines, every pattern of cancelled Submits",
  "The test submits a million Requests and cancels none.",
  [SP],[("item number given and taken back in Submit",SP+": RequestGroup.Submit"),("InOrder",SP+": Pipelines.NewRequestGroup")],
  [("itemNum","position of the next Request in its group, starting at 0 with no gaps",SP)])
p("C20","Closing Pipelines closes the StateMachine once, after all Requests",
  "After Pipelines.Close was called and all submitted Requests have been output, StateMachine.Close is called exactly once; it is never called before every submitted Request has left the pipelines, nor while a Stage is executing.",
  ["schedules","histories"],"every history of submissions, also failed ones, and every interleaving with Close",
  "The StateMachines of the tests do nothing in Close.",
  [SP],[("one increment per Submit, one decrement per output or failed Submit",SP+": RequestGroup.Submit, Pipelines.NewRequestGroup"),("Close",SP+": Pipelines.Close")])
p("C21","Pipeline Stats are exact when nothing is running",
  "When all submitted Requests have been received, Stats reports Completed as their number, Running as 0, and Min, Avg and Max (also those of IngestStats) as the minimum, the sum divided by the number and the maximum of the times measured for them, all 0 if there were none. At any time Running is the number of Requests being processed; concurrent updates are never lost.",
  ["schedules","histories"],"every number of concurrent updates in every interleaving, every sequence of durations",
  "No test reads Stats.",
  [ST,SP],[("compare and swap loops",ST+": setMin, setMax"),("counting",SP+": pipeline.processReq, pipeline.calcExitStats")])
p("C22","The queue of stagedpipe is a FIFO that loses and repeats nothing",
  "Values pushed on the internal queue are popped in the order they were pushed, each exactly once, by any number of concurrent callers. Pop reports the end only if the queue was closed and every value pushed before that was popped, and a queue created with a size limit never holds more values than that and takes another as soon as one is popped.",
  ["schedules","histories"],"every interleaving of any number of Push, Pop and Close",
  "There is no test of the queue.",
  [Q],[("compare and swap on next and head",Q+": simple.push, simple.pop"),("limit",Q+": Queue.Push, Queue.Pop")])
p("C23","Every OTEL span that is started is ended exactly once",
  "With a recording OTEL span in the Context, every span that wait.Group and stagedpipe start (for a Group, a RequestGroup, a Request and each Stage) is ended exactly once by the time Wait, RequestGroup.Close or the output of the Request happened, also if a Submit is cancelled. A Stage's span is a child of its Request's span and not of another Stage's, and the Request leaves the pipeline with the Context it had on entering it if no Stage replaced it.",
  ["histories","programs","schedules"],"every StateMachine, number of Stages, cancellation and reuse",
  "No test has a recording span.",
  [SP,W],[("stage span",SP+": pipeline.execStage"),("request and group spans",SP+": RequestGroup.Submit, Request.otelEnd, RequestGroup.otelEnd"),("group span",W+": Group.Go, Group.Wait")])
p("C24","Pipelines run the configured number of workers and refuse bad arguments",
  "New returns an error, and starts no worker, for fewer than 1 pipelines, a nil StateMachine, or a failing option; otherwise it starts for each of the `num` pipelines one worker per public Stage of the StateMachine and of each object given to CountSubStages. All workers end after Close.",
  ["inputs","configurations","programs"],"every num, option list and StateMachine",
  "Tests only create valid Pipelines and never count workers.",
  [SP],[("argument checks and worker loop",SP+": New, newPipeline"),("counting stages",SP+": numStages, CountSubStages")])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
