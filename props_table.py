prop('P01', 'Value equality and ordering form one consistent total order',
 'For any two values, of any types, known or unknown, exactly one of "less", "equal" and "greater" holds, the other comparison operators agree with these, and two values are equal exactly when a plan could not tell them apart: '
 'same known-ness, same kind, and same content, where Integer and Real compare numerically and whatever an unknown array element last held does not count. The relations are transitive, so values can key maps and caches.',
 ['inputs'], 'all pairs and triples of values of all value types (known, unknown, arrays with any pattern of unknown elements)',
 'the existing tests compare a few dozen hand-picked values; the laws quantify over all pairs and triples',
 ['src/value/Value.cc', 'src/value/ArrayImpl.cc', 'src/value/Array.cc'],
 [('equality and ordering of values', 'src/value/Value.cc: Value::equals, Value::lessThan'), ('equality and ordering of arrays', 'src/value/ArrayImpl.cc: operator==, operator<')],
 ['Value comparison operators'])
prop('P02', 'Serialized values, arrays and states read back unchanged',
 'Every serializable value, array or state writes exactly the number of bytes its announced size says, and reading those bytes back consumes exactly them and yields an equal object, whatever the destination held before. '
 'Unknown reads back as unknown, kinds that cannot be serialized say so, and a typed reader refuses bytes of another type.',
 ['inputs'], 'all values of the nine serializable kinds, of all lengths up to the format limit, and all states with such parameters',
 'tests round-trip a handful of short values; the failures are at particular lengths and byte values',
 ['src/value/ValueType.cc', 'src/value/Value.cc', 'src/value/ArrayImpl.cc', 'src/value/Array.cc', 'src/intfc/State.cc'],
 [('scalar and string format', 'src/value/ValueType.cc: serialize, deserialize, serialSize'), ('array format', 'src/value/ArrayImpl.cc: serialize, deserialize, serialSize'), ('state format', 'src/intfc/State.cc')],
 ['serialize, deserialize, serialSize of Value, Array and State'])
prop('P05', 'Boolean operators follow three-valued logic',
 'NOT, AND, OR and XOR, over any number of arguments, yield what Kleene three-valued logic prescribes: AND is false if any argument is false, otherwise unknown if any is unknown, otherwise true; OR is true if any argument is true, otherwise unknown if any is unknown, otherwise false; '
 'XOR and NOT are unknown if any argument is unknown, otherwise parity and negation. The value, its known-ness, and the value as an object agree.',
 ['inputs'], 'all assignments of true, false, unknown to all argument lists and two-level formulas',
 'the tests sample small argument lists; defects show at particular positions of unknown arguments in longer lists',
 ['src/expr/BooleanOperators.cc', 'src/expr/OperatorImpl.cc', 'src/expr/Function.cc'],
 [('the operators', 'src/expr/BooleanOperators.cc'), ('evaluation over arguments', 'src/expr/Function.cc')], ['Function::getValue, isKnown, toValue'])
prop('P06', 'Comparison operators decide numbers, strings and equality correctly',
 'LT, LE, GT, GE on Integers, Reals and mixtures compare mathematically (IEEE for Reals) and on strings lexicographically; EQ and NE compare values of every type; every one of them is unknown exactly when an argument is unknown; IsKnown is always known and tells whether its argument is.',
 ['inputs'], 'all pairs of values of all types, known and unknown', 'tests sample a few values per type; boundary and mixed-type values decide',
 ['src/expr/Comparisons.cc'], [('the operators', 'src/expr/Comparisons.cc')], ['Function::getValue, isKnown'])
prop('P07', 'Arithmetic operators compute the exact result or unknown',
 'ADD, SUB, MUL, DIV, MOD, MIN, MAX, ABS, SQRT yield a known result only when all arguments are known (and, for division, the divisor is not zero); a known Integer result is the two\'s-complement result, a known Real result the IEEE double of folding the arguments left to right, and Integers mixed with Reals act as Reals. '
 'No arguments whatsoever make the evaluation trap or crash.',
 ['inputs'], 'all Integer and Real arguments, all argument counts, all patterns of unknown', 'tests check single examples; overflow, division by zero and by -1, NaN, and unknown at particular positions are rare inputs',
 ['src/expr/ArithmeticOperators.cc'], [('the operators', 'src/expr/ArithmeticOperators.cc')], ['Function::getValue'])
prop('P08', 'Real to Integer conversion is exact or unknown',
 'CEIL, FLOOR, ROUND, TRUNC and REAL_TO_INT give the mathematically correct Integer whenever it is representable, and unknown otherwise (out of range, NaN, or, for REAL_TO_INT, not a whole number); the Real-valued forms give the corresponding IEEE result.',
 ['inputs'], 'all doubles', 'the range boundaries and the fractional values next to them are a handful among 2^64 inputs',
 ['src/expr/ConversionOperators.cc'], [('the operators', 'src/expr/ConversionOperators.cc')], ['Function::getValue'])
prop('P09', 'String and array operators report content exactly',
 'Concat yields the concatenation of all its arguments in order, unknown if any is unknown; STRLEN the length in bytes; SIZE and MAX_SIZE the array size; ALL_KNOWN and ANY_KNOWN whether all or any elements are known; each is unknown when its argument is.',
 ['inputs'], 'all strings and arrays with any unknown pattern', 'tests use fixed strings and arrays; position of unknown elements and repeated evaluation through the result cache matter',
 ['src/expr/StringOperators.cc', 'src/expr/ArrayOperators.cc', 'src/expr/CachedFunction.cc'], [('the operators', 'src/expr/StringOperators.cc, src/expr/ArrayOperators.cc')], ['Function::getValue'])
prop('P10', 'A variable shows its last assigned value for exactly its scope',
 'A scalar variable is unknown while its scope is inactive, takes its initial value (unknown if none) each time the scope is entered, afterwards shows exactly the value last assigned to it, returns to the saved value when an assignment is retracted, reports as saved exactly what was saved, and notifies its listeners of every change.',
 ['inputs', 'histories'], 'all values and all sequences of assignments, saves, restores and scope changes', 'tests run one fixed sequence per type',
 ['src/expr/UserVariable.cc', 'src/expr/Notifier.cc'], [('variable operations', 'src/expr/UserVariable.cc'), ('change notification', 'src/expr/Notifier.cc: publishChange')], ['Expression::getValue, isKnown, toValue; listener calls'])
prop('P11', 'Array variables and elements keep what was assigned, within bounds',
 'An array variable shows exactly the array last assigned to it (padded with unknown to its declared size), each element the value last assigned to that element and known exactly then; retracting an array or element assignment brings back the saved array or the saved element even if the index has changed meanwhile; '
 'no access outside the array is accepted or changes it; every change of the array or of a referenced element is announced to listeners.',
 ['inputs', 'histories'], 'all array contents, unknown patterns, indexes and operation sequences', 'tests use fixed arrays and one order of operations',
 ['src/expr/ArrayVariable.cc', 'src/expr/ArrayReference.cc', 'src/value/ArrayImpl.cc', 'src/value/Array.cc'], [('array variables', 'src/expr/ArrayVariable.cc'), ('element references', 'src/expr/ArrayReference.cc')], ['getElement, getValuePointer, ArrayReference::getValue'])
prop('P12', 'Every change of an active expression reaches its listeners',
 'Whenever the value an active expression shows changes because something it depends on changed, each of its listeners is notified, whatever the depth of the expression, sharing of subexpressions, and previous addition or removal of other listeners; a removed listener is never called again. What an expression shows is always the function of what its arguments show.',
 ['inputs', 'histories'], 'all expressions of bounded depth, all value changes and listener histories', 'tests check single functions with one listener; missed notifications appear with shared subexpressions and listener removal',
 ['src/expr/Propagator.cc', 'src/expr/Notifier.cc', 'src/expr/Function.cc', 'src/expr/Alias.cc', 'src/expr/ArrayReference.cc'], [('listener graph', 'src/expr/Propagator.cc: addListener, removeListener, notifyChanged'), ('publication', 'src/expr/Notifier.cc')], ['ExpressionListener::notifyChanged'])
prop('P13', 'Nodes follow the state rules exactly, and rest only when none applies',
 'In every micro step exactly those nodes change state whose state, conditions, parent, children and outside-world answers call for it, each to the state, outcome and failure type PLEXIL prescribes for its node type (Empty, Assignment, Command, Update, List, Library call); '
 'conditions of ancestors and of the node are checked in the prescribed precedence; a node changes at most once per micro step, every change is announced as it happened, and the executive stops stepping only when no node is called to change.',
 ['inputs', 'histories'], 'all assignments of true, false and unknown to all eight conditions of node and parent, in every node state, for every subset of declared conditions, and all following events',
 'the regression plans walk a few hundred paths through a state machine with thousands of (state, condition, parent condition) combinations per node type; precedence errors show only when two conditions hold at once',
 ['src/exec/NodeImpl.cc', 'src/exec/ListNode.cc', 'src/exec/CommandNode.cc', 'src/exec/AssignmentNode.cc', 'src/exec/UpdateNode.cc', 'src/exec/LibraryCallNode.cc', 'src/exec/PlexilExec.cc', 'src/exec/NodeFactory.cc'],
 [('destination state per state', 'src/exec/NodeImpl.cc: getDestState*, and overrides in *Node.cc'), ('quiescence loop', 'src/exec/PlexilExec.cc: step'), ('condition activation', 'src/exec/NodeImpl.cc: transitionTo*, activate*/deactivate*')],
 ['Node::getState, getOutcome, getFailureType; ExecListener::notifyOfTransitions; PlexilExec::needsStep'])
prop('P14', 'States, outcomes and failure types fit together across the plan tree',
 'At every micro step, for every node of the tree: a node has an outcome exactly when it has ended its iteration or is on its way out, with a failure type that matches the outcome; children of an inactive node are inactive or finished; all nodes of the tree follow the state rules at every depth, the exit, invariant and end conditions of any ancestor act on all descendants, '
 'and a node finishes only with its descendants at rest.',
 ['inputs', 'histories'], 'trees of nested and sibling nodes, all condition values at every depth of activity and all following events',
 'interactions between levels (an ancestor ending while a grandchild repeats, siblings of different type ending together) are combinations no regression plan enumerates',
 ['src/exec/NodeImpl.cc', 'src/exec/ListNode.cc', 'src/exec/LibraryCallNode.cc', 'src/exec/PlexilExec.cc', 'src/exec/NodeOperators.cc'],
 [('children conditions', 'src/exec/NodeOperators.cc: AllFinished, AllWaitingOrFinished'), ('ancestor conditions', 'src/exec/NodeImpl.cc: createConditionWrappers, ListNode'), ('state notification', 'src/exec/NodeImpl.cc: notifyChanged, setState')],
 ['ExecListener::notifyOfTransitions; Node::getState, getOutcome, getFailureType'])
prop('P15', 'Assignments take effect exactly once, and are undone when interrupted',
 'When an Assignment node executes, its variable (or array element) takes the value its right-hand side had when the node began to execute, once, by the end of that step, and this is announced to listeners with that value; simultaneous assignments see the values from before the step. '
 'When the node fails while executing (exit, parent exit, invariant), the variable returns to the value it had before this node executed. Nothing else changes a variable, and at most one assignment to a variable is carried out in a step.',
 ['inputs', 'histories'], 'all values, all orders of starting, failing and repeating of several assignment nodes',
 'tests run single assignments to completion; interruption after execution, and concurrent assignments of dependent variables, are sampled once or never',
 ['src/exec/Assignment.cc', 'src/exec/AssignmentNode.cc', 'src/exec/PlexilExec.cc', 'src/expr/UserVariable.cc', 'src/expr/ArrayReference.cc'],
 [('execution and retraction', 'src/exec/PlexilExec.cc: performAssignments; src/exec/Assignment.cc: fixValue, execute, retract'), ('when', 'src/exec/AssignmentNode.cc: specializedHandleExecution, transitionToFailing')],
 ['value of the variable after each step; ExecListener::notifyOfAssignment'])
prop('P16', 'Mutexes and assigned variables exclude, by priority, and are always released',
 'No two nodes which use the same mutex, or assign the same variable (or array), execute at the same time: from the moment it starts executing until its iteration ends, a node is the only one in possession. A node whose conditions let it start waits only while another holds a resource it needs, or one of better (numerically lower) priority, or equal priority and not waiting for less long, takes it in that step; '
 'while it waits its other conditions still act. Every resource is free again when its holder leaves execution, whatever the reason.',
 ['inputs', 'histories', 'schedules'], 'all priorities, all resource sets over two mutexes and a variable, all orders of starting, ending, failing, skipping and repeating',
 'the tests have one or two plans with a fixed order; leaks and lost wakeups show only when the holder leaves in an unusual way or the conditions of a waiting node change',
 ['src/exec/PlexilExec.cc', 'src/exec/NodeImpl.cc', 'src/exec/AssignmentNode.cc', 'src/exec/Mutex.cc', 'src/expr/Reservable.cc', 'src/utils/LinkedQueue.hh'],
 [('pending queue', 'src/exec/PlexilExec.cc: resolveResourceConflicts, resourceCheckEligible'), ('acquisition', 'src/exec/NodeImpl.cc: tryResourceAcquisition, notifyResourceAvailable, notify'), ('reservation', 'src/expr/Reservable.cc: acquire, release')],
 ['ExecListener::notifyOfTransitions; Mutex::getHolder'])
prop('P17', 'Commands, aborts and updates reach the outside exactly once, answers return',
 'Each time a Command or Update node executes, exactly one command or update is sent, in that step, with the name and the argument values its expressions had when the node began to execute; when a Command node is interrupted (exit, invariant, parent) its command is aborted exactly once, and never otherwise. '
 'The handle shown is the last one reported during the current execution (none before), each report is announced, a returned value is assigned to the command\'s variable, and handles, values and acknowledgements which arrive when the node no longer executes change nothing.',
 ['inputs', 'histories', 'schedules'], 'all argument and return values, all interleavings of condition changes and answers from outside, including late ones',
 'timing of answers against node state is decided by the outside world; tests script a few orders',
 ['src/exec/CommandNode.cc', 'src/intfc/CommandImpl.cc', 'src/exec/UpdateNode.cc', 'src/exec/PlexilExec.cc'],
 [('sending', 'src/exec/PlexilExec.cc: executeOutboundQueue; specializedHandleExecution in CommandNode.cc and UpdateNode.cc'), ('answers', 'src/intfc/CommandImpl.cc: setCommandHandle, returnValue, acknowledgeAbort; UpdateImpl::acknowledge')],
 ['Dispatcher::executeCommand, invokeAbort, executeUpdate; CommandImpl::getCommandHandle'])
prop('P18', 'Conditions about other nodes see and follow every change of them',
 'A condition which refers to another node\'s state, outcome, failure type, state entry and exit times, command handle, or to state predicates (Finished, Failed, NoChildFailed and so on) has at every moment the value which follows from that node\'s actual history, unknown where there is none yet, and the node with the condition reacts to every change of it without any further event. '
 'Conditions of inactive and finished nodes are not in use.',
 ['inputs', 'histories'], 'every such condition on every one of the eight condition kinds, all states and following events of the other node',
 'lost notifications depend on which of the expressions a node listens to changes last; regression plans cover the common few',
 ['src/exec/NodeVariables.cc', 'src/exec/NodeTimepointValue.cc', 'src/exec/NodeOperators.cc', 'src/exec/NodeFunction.cc', 'src/exec/NodeImpl.cc', 'src/intfc/CommandImpl.cc', 'src/intfc/CommandHandleVariable.cc'],
 [('node variables', 'src/exec/NodeVariables.cc'), ('timepoints', 'src/exec/NodeImpl.cc: logTransition; src/exec/NodeTimepointValue.cc'), ('handle', 'src/intfc/CommandHandleVariable.cc'), ('condition activation', 'src/exec/NodeImpl.cc, CommandNode.cc: activate and deactivate of conditions')],
 ['Node::getState of the node with the condition; Expression::isActive of conditions'])
prop('P19', 'Lookups show the current value of their state, within the tolerance given',
 'A lookup shows the value last obtained for the state named by its current name and parameters, asks the interface for it when it is entered or comes to name another state unless it was obtained in the same cycle, and is unknown when inactive, when its state is not known, or when the state\'s value is unknown. '
 'A lookup on change with a tolerance shows a new value exactly when it differs from the one shown by at least the tolerance (or follows or becomes unknown), and follows changes of the tolerance. Listeners learn of every change of what is shown and of no other. '
 'The interface always holds thresholds no wider than those of any active change lookup of the state, and none when there is none.',
 ['inputs', 'histories'], 'values, tolerances, names and parameters, known or unknown; sequences of reports, cycles and changes',
 'the combination of thresholds, unknown values, shared states and re-entry is a history; unit tests try a handful of values',
 ['src/intfc/Lookup.cc', 'src/intfc/StateCache.cc', 'src/intfc/StateCacheEntry.cc', 'src/intfc/CachedValueImpl.cc'],
 [('lookup state', 'src/intfc/Lookup.cc: handleActivate, handleChangeInternal'), ('tolerance', 'src/intfc/Lookup.cc: LookupOnChange::updateInternal, ThresholdCacheImpl'), ('cache entry', 'src/intfc/StateCacheEntry.cc: registerLookup, updateThresholds')],
 ['Expression readers and listeners of the lookup; Dispatcher::lookupNow, setThresholds, clearThresholds calls'])
prop('P20', 'Command resources are never over-allocated, go by priority, and come back',
 'A command with resource requests is accepted in a round of arbitration exactly when every resource it needs, explicitly or through the resource hierarchy, stays between zero and its maximum given what earlier accepted commands hold and what commands of better priority (earlier among equals) were granted in the same round; '
 'commands without requests are always accepted; every command is decided exactly once. An explicit request overrides what a parent resource implies. When a command ends, for whatever reason and with whatever handle, all it held for release is available again, whatever the rounding of the amounts.',
 ['inputs', 'histories'], 'all priorities, amounts, release flags and handles, over rounds of arbitration and ends of commands, flat and hierarchical resources, all layouts of the resource file',
 'the tests have a few fixed scripts with round amounts; leaks and wrong order need a combination of hierarchy, priority and end of command',
 ['src/intfc/ResourceArbiterInterface.cc', 'src/intfc/CommandImpl.cc'],
 [('arbitration', 'src/intfc/ResourceArbiterInterface.cc: arbitrateCommands, partitionCommands, optimalResourceArbitration'), ('hierarchy', 'src/intfc/ResourceArbiterInterface.cc: determineAllChildResources, readResourceHierarchy'), ('release', 'src/intfc/ResourceArbiterInterface.cc: releaseResourcesForCommand; src/intfc/CommandImpl.cc: deactivate')],
 ['ResourceArbiterInterface::arbitrateCommands, releaseResourcesForCommand'])
prop('P21', 'What interfaces post reaches the plan once, in order, as posted',
 'Every value change, command handle, return value, abort or update acknowledgement, plan and mark posted to the executive takes effect when the queue is next processed, exactly once, in the order of posting, with the content it had when posted; nothing takes effect before. '
 'A handle outside the legal range arrives as an interface error, posts without a target are ignored, and processing says whether the executive has to be stepped. Queue entries are recycled blank; flushing a queue empties it.',
 ['inputs', 'histories'], 'all sequences of posts and processing, all values and handles',
 'tests post one item at a time; order, recycling and flush matter only over sequences',
 ['src/app-framework/InterfaceManager.cc', 'src/app-framework/SerializedInputQueue.cc', 'src/app-framework/SimpleInputQueue.cc', 'src/intfc/QueueEntry.cc'],
 [('posting and processing', 'src/app-framework/InterfaceManager.cc: handle*, processQueue'), ('queue', 'src/app-framework/SerializedInputQueue.cc, SimpleInputQueue.cc'), ('entries', 'src/intfc/QueueEntry.cc')],
 ['AdapterExecInterface calls; StateCache, CommandImpl, Update, PlexilExec::addPlan as seen after processQueue'])
prop('P22', 'Messages wait in order, are accepted once, and their data follow the handle',
 'HaveMessage, PeekAtMessage and PeekAtMessageSender describe the oldest message not yet accepted, and say so when there is none. GetMessageHandle takes exactly that message and returns a handle different from every other given, or unknown when no message waits. '
 'The lookups of a message\'s text, parameters, parameter count, sender and arrival time show that message\'s data from acceptance until ReleaseMessageHandle, and unknown afterwards, whether or not such lookups are in use at the time. Message commands with wrong arguments fail, once, without other effect.',
 ['inputs', 'histories'], 'all sequences of arrivals, acceptances and releases, with lookups in use or not; all parameter values',
 'no test of the repository executes these commands; wrong data show only over a sequence of messages and releases',
 ['src/app-framework/MessageAdapter.cc', 'src/app-framework/InterfaceManager.cc', 'src/intfc/StateCache.cc', 'src/intfc/QueueEntry.cc', 'src/intfc/Message.hh'],
 [('commands', 'src/app-framework/MessageAdapter.cc: acceptMessage, releaseMessageHandle and the handlers'), ('queue', 'src/app-framework/InterfaceManager.cc: notifyMessage*'), ('data', 'src/intfc/StateCache.cc: messageReceived, assignMessageHandle, releaseMessageHandle')],
 ['lookups HaveMessage, PeekAtMessage, MessageText ...; command handles and return values of GetMessageHandle ...'])
prop('P23', 'States are told apart by name and parameters, and by nothing else',
 'Two states are equal exactly when their names and all their parameters are, whatever way they were built; the order of states is a strict total order agreeing with that; so a value reported for a state is found again by exactly the lookups which name it, and never shown for another state. Copies are independent of their originals.',
 ['inputs'], 'all names and parameters of all value types, known or unknown',
 'an order which is not transitive or treats some values as equal loses entries in the state cache for particular combinations only',
 ['src/intfc/State.cc', 'src/value/Value.cc', 'src/value/ArrayImpl.cc'],
 [('equality and order', 'src/intfc/State.cc: operator==, operator<; src/value/Value.cc: equals, lessThan'), ('construction', 'src/intfc/State.cc: constructors, setParameterCount, setParameter')],
 ['State::operator==, operator<; std::map<State, ...>'])
prop('P24', 'Containers behave as the queues, priority queues, maps and sets they are',
 'The intrusive queue keeps items in the order put, the priority queue in order of the comparison and of arrival among equals; removals take exactly the item meant and unlink it; the sorted map and set hold each key once and find exactly what was entered; names compare without regard to case as documented; the first bit set or clear is found.',
 ['inputs', 'histories'], 'all sequences of operations, all keys',
 'a wrong tail pointer or a wrong order shows only with a later operation on a particular arrangement of keys',
 ['src/utils/LinkedQueue.hh', 'src/utils/SimpleMap.hh', 'src/utils/SimpleSet.hh', 'src/utils/map-utils.hh', 'src/utils/stricmp.c', 'src/utils/bitsetUtils.hh'],
 [('queues', 'src/utils/LinkedQueue.hh: LinkedQueue, PriorityQueue'), ('maps', 'src/utils/SimpleMap.hh, SimpleSet.hh, map-utils.hh')],
 ['LinkedQueue, PriorityQueue, SimpleMap, SimpleSet, stricmp, findFirstOne'])
prop('P33', 'Requests reach the handler registered for them, and are always answered',
 'A command, command abort, lookup, threshold or update goes to the handler last registered for its name, otherwise to the last default handler, and to no other. Where there is none, commands and aborts and updates are acknowledged as successful, lookups leave the value alone. '
 'A handler which fails makes the command an interface error, the lookup unknown, the update refused; it never goes unanswered. Adapters are initialized and started in order, each once, until one fails, which is reported; all are stopped.',
 ['inputs', 'histories', 'faults'], 'all sequences of registrations of commands, lookups and planner updates; all outcomes of handlers',
 'tests run one adapter configuration; precedence between named and default registration, and failing handlers, are not covered',
 ['src/app-framework/AdapterConfiguration.cc', 'src/app-framework/InterfaceManager.cc', 'src/app-framework/CommandHandler.cc'],
 [('registration', 'src/app-framework/AdapterConfiguration.cc: register*, setDefault*'), ('dispatch', 'src/app-framework/AdapterConfiguration.cc: lookupNow, executeCommand, invokeAbort, executeUpdate'), ('life cycle', 'src/app-framework/AdapterConfiguration.cc: initialize, start, stop')],
 ['Dispatcher calls; CommandHandler, LookupHandler, PlannerUpdateHandler of the registered adapter'])
prop('P27', 'Conversions and arithmetic of times agree with the times they denote',
 'Adding, subtracting and comparing times (timespec, timeval) give the exact result, normalized, for every pair of times in range. Converting a number of seconds to a time gives the time it denotes to within one nanosecond (microsecond), normalized, also before the epoch and just below a whole second; numbers no time can represent are refused and never leave the result undefined. Converting back gives the number again to within rounding.',
 ['inputs'], 'all times and numbers in range, including negative ones, and everything out of range',
 'normalization errors show only for particular fractions and signs',
 ['src/utils/timespec-utils.cc', 'src/utils/timespec-utils.hh', 'src/utils/timeval-utils.cc', 'src/utils/timeval-utils.hh'],
 [('timespec', 'src/utils/timespec-utils.cc: operators, doubleToTimespec, timespecToDouble'), ('timeval', 'src/utils/timeval-utils.cc: operators, doubleToTimeval, timevalToDouble')],
 ['the operators and conversion functions of timespec-utils.hh and timeval-utils.hh'])
prop('P34', 'A wakeup at a time comes once the time has come, and is never lost',
 'When the plan waits for a time, either the time has already come and the executive is told at once, or a timer is set for no later than that time; when the timer goes off before the time (clocks differ, rounding) it is set again, otherwise the executive is told and then sees a time no earlier than the one asked for. Ticks come at the interval configured. '
 'Timers can be stopped, after which none goes off, and started again; failing to start is reported. This holds for every timebase the platform offers.',
 ['inputs', 'schedules', 'faults'], 'all clock readings at the request and at the signal, all wakeup times and intervals, all orders of start and stop',
 'whether a wakeup is lost depends on the sub-microsecond part of the clock at the moment of the request; tests run on the real clock',
 ['src/app-framework/PosixTimebase.cc', 'src/app-framework/ItimerTimebase.cc', 'src/app-framework/TimeAdapter.cc', 'src/app-framework/Timebase.cc', 'src/app-framework/TimebaseFactory.cc'],
 [('timer', 'src/app-framework/PosixTimebase.cc, ItimerTimebase.cc: setTimer, start, stop, handler'), ('adapter', 'src/app-framework/TimeAdapter.cc: setThresholds, timerTimeout')],
 ['LookupOnChange(time) thresholds; timer_settime, setitimer as seen by stand-ins; ExecApplication::notifyExec'])
