CONSTANTS Cap = 1 Events = {1, 2, 3} Stoppers = {1, 2} Deadlines = {2, 3}
SPECIFICATION Spec
INVARIANTS OnceEach OneAtATime InOrder AnsweredRan NotExecuted StoppedIsDone RefusedOnlyWhenStopped
PROPERTIES Answered StopsReturn Coarse
CHECK_DEADLOCK FALSE
