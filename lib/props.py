CTL = ('TLA+ specification checked with TLC; recorded executions of the real code, run under a controlled scheduler '
       '(systematic bounded-preemption and random schedules, virtual time), validated by TLC against the specification')
CTL_NOTE = ('Every recorded execution is checked by TLC to be a behaviour of the specification; schedules are enumerated up to a '
            'preemption bound and sampled beyond it, on small programs. Trusts the scheduler runtime (rt/ctl.cpp), which replaces '
            'pthread primitives and the TSan instrumentation interface, and sequential consistency plus the happens-before specification '
            'for weak memory.')

prop('C01', 'Bounded blocking queue hands over every element exactly once, in FIFO order',
     'For any number of producer and consumer threads using the array blocking queue, the elements returned by successful dequeues are exactly the '
     'elements of successful enqueues, each returned once, unchanged, and in the order in which they entered the queue; never more than the configured '
     'capacity of elements is inside. An operation that reports failure adds or removes nothing, what the producer wrote before enqueueing is visible '
     'to the consumer that dequeues it, and full/empty tell the truth when no other operation is in progress.',
     ['schedules', 'histories', 'inputs'], 'all interleavings of any enqueue/tryEnqueue/dequeue/tryDequeue calls by any number of threads, all capacities',
     'The test runs a handful of free-running threads; it samples a few schedules and never forces wake-up races, ring wrap-around with waiters or failed try operations.',
     ['Container/ArrayBlockingQueue.hpp', 'Container/BlockingQueue.hpp'],
     [('one mutex around the ring buffer, re-checked conditions after every wait', 'ArrayBlockingQueue::enqueue/tryEnqueue/dequeue/tryDequeue'), ('ring index wrap-around', 'ArrayBlockingQueue::increment')],
     CTL, note=CTL_NOTE)
prop('C02', 'Bounded blocking queue waits only for a reason, honours timeouts and callbacks',
     'A blocking enqueue (dequeue) on the array blocking queue returns whenever there is space (an element) for it: no wake-up is ever lost, however many '
     'threads wait. A timed or non-waiting operation gives up only when the queue is full (empty) at or after the end of its wait time, and never waits longer than that. '
     'The queue-is-full callback in force for the call (explicit, else the default) runs with the element exactly when the queue was found full, and the space-now-available '
     'callback exactly when such a call then succeeds.',
     ['schedules', 'histories'], 'all interleavings, all wait times and time-out/notify races, spurious wake-ups included',
     'Lost wake-ups, stolen elements during a timed wait and timeout/notify races need particular schedules; the test uses sleeps and a single shape.',
     ['Container/ArrayBlockingQueue.hpp'],
     [('condition variable notifications under the lock', 'enqueueCondition/dequeueCondition'), ('recomputed remaining wait time', 'tryEnqueue/tryDequeue')],
     CTL, note=CTL_NOTE)
prop('C03', 'Semaphore: permits are neither lost nor invented, and no waiter is forgotten',
     'At every moment the number of completed decrements of a semaphore is at most its initial count plus the number of increments begun. An increment never blocks, '
     'and a decrement blocks only while no permit is left: as long as there are permits, no waiting thread stays blocked. What a thread did before an increment is visible '
     'after the decrement that consumed it.',
     ['schedules', 'histories'], 'all interleavings of increments and decrements by any number of threads, spurious wake-ups included',
     'The semaphore has no test of its own with more than trivial contention; lost notifications only show under particular schedules.',
     ['Concurrent/Semaphore.hpp'], [('count protected by the mutex, condition re-checked in a loop', 'Semaphore::decrement'), ('notify for each increment', 'Semaphore::increment')],
     CTL, note=CTL_NOTE)
prop('C04', 'Cyclic barrier releases a round only when all parties arrived, round after round',
     'With n parties configured, no thread returns from its r-th countdown on a cyclic barrier before all n parties have called countdown r times, and once they have, all of them return; '
     'this holds for every round, without any reset between rounds. After a reconfiguration made while nobody uses the barrier, the same holds with the new number of parties. '
     'What a party did before a round is visible to every party after it.',
     ['schedules', 'histories', 'configurations'], 'all interleavings, any number of parties, rounds and reconfigurations',
     'Re-use races (a fast thread lapping a slow one) need specific schedules; the tests run a barrier with free-running threads.',
     ['Concurrent/CyclicBarrier.hpp', 'Concurrent/Semaphore.hpp'], [('two turnstiles', 'CyclicBarrier::countdown')], CTL, note=CTL_NOTE)
prop('C05', 'Lazy value is constructed at most once and safely published',
     'However many threads request a lazy value, its construct function completes successfully at most once and never runs in two threads at a time; every request returns a reference to the one object '
     'holding that value, fully visible to the requesting thread. If the construct function throws, the exception reaches the thread that ran it, nothing counts as constructed and a later or waiting '
     'request tries again. On destruction the destruct function runs exactly once with the value if it was constructed, and not otherwise.',
     ['schedules', 'histories', 'fault_sequences'], 'all interleavings of requests, all patterns of throwing constructions',
     'Double-checked locking bugs and weakened memory orders do not show on x86 or in a single-threaded test.',
     ['Concurrent/LazyValue.hpp'], [('double-checked locking with acquire/release', 'LazyValue::operator ()')], CTL, note=CTL_NOTE)
prop('C06', 'Single time executor runs its code once; every caller returns after it ran',
     'However many threads invoke a single time executor, its code block completes at most once and never runs in two threads at a time, and every invocation that returns normally returns after it has completed, with its effects visible. '
     'If the block throws, the exception reaches the invoking thread and a later or waiting invocation runs it again. On destruction the destructor block, if any, runs exactly once if and only if the code block completed.',
     ['schedules', 'histories', 'fault_sequences'], 'all interleavings of invocations, all patterns of throwing blocks, any previous content of the memory',
     'The single test invokes the executor in one thread.',
     ['Concurrent/SingleTimeExecutor.hpp'], [('double-checked locking with fences', 'SingleTimeExecutor::operator ()'), ('destructor block', 'SingleTimeExecutor::~SingleTimeExecutor')], CTL, note=CTL_NOTE)
prop('C07', 'Synchronised queue is a linearizable FIFO that never loses or repeats elements',
     'For any number of threads, the enqueues, dequeues and empty queries of a synchronised queue behave as if executed one at a time on a FIFO sequence: each element is dequeued exactly once in order, a dequeue throws an empty exception '
     'only when the queue is empty, and no operation blocks indefinitely.',
     ['schedules', 'histories'], 'all interleavings of operations by any number of threads',
     'Tests use a fixed producer/consumer shape; an unlocked path only fails under particular interleavings.',
     ['Container/SynchronizedQueue.hpp'], [('mutex around every operation', 'SynchronizedQueue')], CTL, note=CTL_NOTE)

SMQ_NOTE = CTL_NOTE + ' Processes are simulated by queue objects opened independently by name in one address space: each has its own mapping, the shared memory is real.'
prop('C08', 'Shared memory queue delivers each object once, in order, within its capacity',
     'For any number of processes and threads using a shared memory queue whose objects fit in one buffer, each successfully enqueued object is dequeued exactly once, with equal content, in FIFO order; at most the configured capacity of objects is inside, '
     'empty/full/capacity tell the truth, a blocking call returns once there is an element or space for it, and a try call reports through its result or success flag exactly whether it took effect, gives up only when it had to, and waits no longer than its wait time in any time zone. '
     'Opening an existing queue (open only, open-or-create) gives the same queue, creating an existing one or opening a missing one throws.',
     ['schedules', 'histories', 'configurations'], 'all interleavings of calls through any handles of the queue, all capacities and wait times, all ways of opening',
     'The test uses one producer and one consumer process, one message size and free-running schedules; timeouts, failures and third parties are not exercised.',
     ['Interprocess/SharedMemoryQueue.hpp', 'Interprocess/Impl/SharedMemoryQueueImpl.hpp'], [('named message queue plus shared state, wait times as absolute UTC times', 'SharedMemoryQueue::tryEnqueue/tryDequeue')], CTL, note=SMQ_NOTE)
prop('C09', 'Shared memory queue reassembles objects larger than a buffer, whatever is interleaved',
     'Objects that need several buffers are delivered whole and unchanged, each exactly once: the buffers of several producers may interleave in any way, a dequeue may time out in the middle of an object and be continued by a later one on the same handle, and '
     'objects whose buffers were set aside meanwhile are delivered by later dequeues in the order in which they were completed. A try-enqueue that gives up part way reports that in its result. Empty is false while set aside buffers wait in the handle.',
     ['schedules', 'histories', 'inputs'], 'all interleavings of multi-buffer enqueues and dequeues, all object and buffer sizes, time-outs at any point',
     'Interleaved multi-buffer messages and time-outs part way only happen under particular schedules.',
     ['Interprocess/SharedMemoryQueue.hpp', 'Interprocess/Impl/SharedMemoryQueueImpl.hpp'], [('fragment header with message identifier and remaining size', 'SharedMemoryQueue enqueue'), ('pending buffers per handle', 'SharedMemoryQueue::dequeue')], CTL, note=SMQ_NOTE)

SEQ = ('TLA+ specification checked with TLC; scripts that cover every transition of a bounded model (printed by TLC) and random scripts are run on the real code, '
       'and TLC validates every recorded behaviour against the specification')
SEQ_NOTE = 'Exhaustive over the transitions of a small model, sampled (seeded) beyond it; the harness that performs the operations and records their results is trusted.'
prop('C13', 'Dependency graph answers are true of the relationships added so far',
     'After any history of adding and removing dependencies and relationships, the dependency graph contains exactly the dependencies added and not removed, with the objects supplied, and exactly the relationships between them that were added and not removed since '
     '(removing a dependency removes its relationships and no other); direct dependencies, relationship data, look-ups and iteration report just these. The dependency order is a permutation in which every dependency precedes its dependents, the parallel order puts each '
     'in the first step after all its dependencies, cycles are reported if and only if there are any, with edges that lie on cycles and cover them all, and the orders throw on cyclic graphs. Adding twice or removing, relating or querying what is absent throws and changes nothing, unless tolerated by flag.',
     ['histories', 'inputs'], 'all histories of operations on graphs of any size',
     'The tests build one or two fixed graphs; removal re-numbers vertices and only particular histories show a stale index.',
     ['Container/DependencyGraph.hpp'], [('adjacency list with reverse lookup map rebuilt on removal', 'DependencyGraph'), ('levels as longest path', 'parallelDependencyOrder')], SEQ, note=SEQ_NOTE)
prop('C14', 'Object trie keeps the tree that was built, finds what is there and cascades it',
     'After any history of add, add-or-replace, find-or-add, cascade, copy and move operations, the nodes of an object trie form exactly the tree those operations define: children in insertion order, values replaced in place by the first match of the comparison in force and never duplicated by add-or-replace or find-or-add. '
     'Find returns the node at the given chain of values or none, find-nearest the deepest matched node, find-nearest-leaf it if it is a leaf; depth and breadth iteration visit every node exactly once in pre-order and level order with the right ancestors. '
     'Cascading overlays the source on the destination: matching values are replaced, through the copy or move function at every level, the others added, the rest stays. Copies are independent.',
     ['histories', 'inputs'], 'all tries, all histories of operations, all comparison and replacement functions',
     'The tests use fixed tries of one shape.',
     ['Container/ObjectTrie.hpp'], [('recursive vector of children', 'ObjectTrieNode'), ('iterators over stacks and queues of nodes', 'DepthIterator/BreadthIterator'), ('recursive cascade', 'cascadeChildren')], SEQ, note=SEQ_NOTE)

prop('C10', 'Thread local instance gives every thread its own object, once',
     'Each thread that requests a thread local instance gets an object of its own, created with the default constructor or the supplied function at its first request and the same object at every later request; no object is shared between threads or between instances, '
     'not even when an instance is created where another one was destroyed. The object of a thread is destroyed exactly once, no earlier than the end of the thread or of the instance.',
     ['histories', 'schedules'], 'all histories of creating and destroying instances and threads and requesting objects',
     'There is no test; re-use of an address by a later instance while old threads live on is not something a test would stumble on.',
     ['Concurrent/ThreadLocalInstance.hpp'], [('Boost thread specific pointer keyed by address, tagged with an instance id', 'ThreadLocalInstance')], SEQ, note=SEQ_NOTE + ' Threads take turns: requests of different threads share no state.')
prop('C11', 'Fork runs the function in the child only and reports each termination once, truthfully',
     'Fork runs the supplied function exactly once, in the child, returns the pid in the parent, and in the child exits with or returns the result as documented. Waiting, checking and terminating report a child that has terminated exactly once, with its pid, how it ended and its exit status or signal; '
     'a child that is still running gives an empty report, checking never blocks, waiting blocks until the end, and terminating kills it. Checking several children reports exactly those that have terminated. Invalid pids give empty reports and affect no process.',
     ['histories', 'fault_sequences'], 'all histories of forks, exits, kills and queries',
     'No test covers termination by signals, termination of running children or repeated queries.',
     ['Concurrent/Fork.hpp'], [('waitid with WNOHANG', 'Fork::checkForTermination/terminateProcess')], SEQ, note=SEQ_NOTE)
prop('C12', 'Shared memory objects are one object for every handle and process that opens them',
     'All handles opened by name on a shared memory object, in any process and of either kind (managed, unmanaged), refer to the same object: what one writes, all others read. Creating makes a new object with the given content, opening an existing one (open only, read only, open or create) keeps its content and ignores '
     'the construction arguments, and opening a missing one (open only, read only) throws. Unnamed objects are distinct from all others; moving a handle keeps its object; a managed object outlives its handles.',
     ['histories', 'configurations'], 'all histories of creating, opening, moving, destroying and writing through handles in any number of processes, object sizes below and above a page',
     'There is no test of their own; the shared memory queue uses only one way of opening.',
     ['Interprocess/MSharedMemoryObject.hpp', 'Interprocess/USharedMemoryObject.hpp'], [('Boost managed segment / mapped region by name', 'constructors')], SEQ, note=SEQ_NOTE)
prop('C23', 'Logging from any number of threads, during flushing and reconfiguration, writes whole lines as configured',
     'While any number of threads log messages, obtain loggers, flush, ask for configurations and reconfigure the logging system at the same time, in any schedule: nothing deadlocks or crashes; every message whose level is enabled is written exactly once, as one unbroken line; the level, format, stream and flushing that decide about a message are each those of a configuration in force at some time during the call, '
     'and once configure has returned every later call follows the new configuration; all threads asking for a namespace get the same logger, and a newly created logger is configured when they get it; a message of a flushing logger, and every message that was written before a call of flush or flushAll, is in the file when the call returns; each thread\'s messages stay in order; getConfiguration is a whole old or new configuration.',
     ['schedules', 'configurations'], 'all interleavings of logging, obtaining loggers, flushing and reconfiguration',
     'The logger tests are single threaded (the test groups are disabled in the multi-threaded runs).',
     ['Logging/Logger.hpp', 'Logging/Logger.cpp', 'Logging/Impl/LoggingState.cpp', 'Logging/Impl/LoggingStreams.hpp', 'Logging/Impl/LoggingStreams.cpp', 'Logging/Impl/LoggerHolder.cpp'],
     [('atomic fields of loggers replaced one by one', 'Logger::logMessage, LoggingState::setStreams/setFormats/setLevels'), ('stream mutexes', 'FileLoggingStream::write, OStreamLoggingStream::write'), ('logging mutex', 'LoggingState::getInstance')], CTL, note=CTL_NOTE)
prop('C24', 'The test runner runs every selected test exactly once in any execution model and reports its own outcome, whatever other tests do',
     'A run of the test runner runs exactly the registered test cases that match the list of glob patterns (all, without a list) and whose group allows the execution model, each once, with its group\'s setup before and teardown after it, with no more tests at a time than the concurrency level, in the process and threads the model promises (a fresh process per test in process per test). '
     'The outcome of a test is the worst of its phases: error for exceptions, failure for assertions, ignored, or passed; in the models with child processes a test that crashes, is killed, or exits is an error and changes nothing about any other test, and the run goes on to its end. '
     'The printed results come group by group in the order of registration, whole; the counts, the list of failed tests, the return code (zero only without failures and errors), and the report of each group (own generators and Surefire files) agree with the outcomes and have the messages of the failures whatever their length.',
     ['histories', 'configurations', 'schedules', 'crashes'], 'all sets of groups and test cases, with every combination of outcomes of setup, body and teardown, all execution models, concurrency levels and lists of patterns',
     'The tests of the library are run by it: they all pass, and none crashes; there is one test group about selection.',
     ['Testing/TestRunner.hpp', 'Testing/Impl/TestRunnerExecutor.hpp', 'Testing/Impl/SingleThreadedTestRunnerExecutor.hpp', 'Testing/Impl/WorkerThreadsTestRunnerExecutor.hpp', 'Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp', 'Testing/Impl/ProcessPerTestTestRunnerExecutor.hpp', 'Testing/Impl/MultiProcessTestRunnerExecutor.hpp', 'Testing/Reporters/SurefireTestReportGenerator.cpp'],
     [('shared counter and claims of the child processes', 'MultiProcessTestRunnerExecutor::runChildLogic'), ('results printed in order', 'TestRunnerExecutor::printAvailableResults'), ('replacement of child processes', 'checkForChildProcessTermination')], SEQ,
     note=SEQ_NOTE + ' The child processes and threads are real ones, scheduled by the operating system; how they share the tests out is model checked in TestRunnerProtocol.tla.')
prop('C25', 'Scope exit functions run exactly once unless cancelled, and at the right time',
     'The function held by a scope exit object runs exactly once: when the object is destroyed, or at once on execute-now and then not again. Clearing cancels it, resetting replaces it, and moving a movable scope exit transfers it, so that it runs with the last holder only.',
     ['histories'], 'all histories of creating, clearing, resetting, executing, moving and destroying objects',
     'There are no tests; the classes are used for cleanup all over the library.',
     ['Type/OnScopeExit.hpp', 'Type/MovableOnScopeExit.hpp'], [('std::function replaced by a no-op', 'clear/executeNow')], SEQ, note=SEQ_NOTE)
INJ = ['Application/Injector.hpp', 'Application/Impl/Binding.hpp', 'Application/Impl/BindingKey.hpp', 'Application/Impl/BindingMap.hpp', 'Application/BindingBuilder.hpp', 'Application/ApplicationConfiguration.hpp']
prop('C26', 'A zip archive holds exactly what was committed to it, and reading gives exactly what it holds',
     'Whatever entries, directories, comments, renames and deletions (of files or of directories with all they hold) a transaction is made of: the archive file is untouched until the transaction commits, afterwards it holds the view of the transaction and nothing else, and nothing of it after a rollback or a failed commit, which leaves the transaction open. Data given in memory is copied when it is given. '
     'An unzipper, and the entries of a zip file URI, give the names, sizes, comments and contents of the archive as it was opened, whole and unchanged whatever their size; what is missing, damaged, encrypted with another password, or asked of an archive that is not open, is an exception, never other data. Gzip and gunzip are inverse to each other.',
     ['histories', 'inputs', 'fault_sequences'], 'all archives and sequences of changes, commits and rollbacks; all contents and sizes; damaged files',
     'The test reads one archive with small entries, and makes one sequence of changes.',
     ['Util/Zip.hpp', 'Util/Compression.hpp', 'Resource/ZipFile.hpp', 'Resource/ZipEntry.hpp'],
     [('transactions', 'Zipper::putEntry/renameEntry/deleteEntry/commit/close'), ('reads by name and index', 'Unzipper'), ('streams of entries', 'Resource::Impl::ZipEntrySource')], SEQ,
     note=SEQ_NOTE)
prop('C27', 'File handles answer for the file system as it is, and resources carry contents unchanged',
     'A file made in any way (strings, paths, parts, appending, copies, moves) has the path it was given, and is equal to, and ordered and hashed as, the files with that path only. At any time, however long ago the handle was made, it tells whether there is a file or a directory, and the size of the file; iteration gives each of the children of a directory (recursively: everything below it) once. '
     'Creating directories creates the missing ones and tells whether any was created; removing tells whether something was removed and never removes a directory that is not empty. What was written to a file or string URI as bytes or as text, in any pieces, is what is read back, as bytes, text (UTF-8 and UTF-32 converted into each other) or lines; writing a file replaces, writing a string URI appends; '
     'resources can be moved and closed twice; what is missing is an exception.',
     ['histories', 'inputs'], 'all sequences of operations on files and directories through handles old and new; all contents, lengths and sizes of pieces',
     'The tests read and write a few fixed files right after having made the handle.',
     ['Resource/File.hpp', 'Resource/StringUri.hpp', 'Util/Files.hpp'],
     [('file system queries and changes', 'File'), ('byte and text resources of files', 'FileByteReadResource and others'), ('resources of string URIs', 'StringUriByteWriteResource, StringUriUtf32To8WriteResource'), ('whole file reading', 'Files')], SEQ,
     note=SEQ_NOTE + ' Symbolic links, permissions, reading directories as streams and malformed UTF-8 are not judged.')
prop('C28', 'URIs are decomposed, normalised and resolved as their grammar says, or rejected',
     'A text is accepted as a URI if and only if it has a scheme of letters, digits, plus, period and hyphen that starts with a letter, no password, a host whenever there is user information or a port, a closed bracket around an IPv6 host, a decimal port of at most 65535, and at most 32767 characters; anything else is an invalid URI exception. Its components are exactly the parts of the text that the generic URI grammar gives, '
     'so that they recompose to the text, however they are combined and whichever are absent or empty, also in copies. Normalising a path removes "." and "x/.." and repeated and final slashes and nothing else. A URI made from a string is of the kind its scheme and extension say and refers to the path given. Appending keeps scheme, authority, query and fragment. '
     'References are resolved against the directory of the base (the path itself if it is a directory, otherwise its parent), absolute ones against its root, and references with a scheme stand for themselves.',
     ['inputs', 'configurations'], 'all URI texts, paths, and pairs of base and reference',
     'The tests parse some thirty well formed URIs and resolve none; the parser is a single pass over offsets in which every combination of absent and empty components is a path of its own.',
     ['Resource/UriComponents.hpp', 'Resource/UriResolve.hpp', 'Resource/UriFromString.hpp', 'Resource/Url.hpp', 'Resource/Http.hpp'],
     [('parser', 'UriComponents::UriComponents'), ('path normalisation', 'UriComponents::normalizePath'), ('resolution', 'UriResolve::resolve'), ('URIs from strings', 'fromString(unique_ptr<Uri> &, string_view)')], SEQ,
     note=SEQ_NOTE + ' Misplaced brackets and at signs, empty ports, paths that go back past the root and malformed UTF-8 are not judged (but may not crash).')
prop('C29', 'String functions compute the same, right answer for every text in every form of string',
     'Searching (starts with, ends with, contains, occurrences, last index), comparing without case, changing case, appending, padding to a width in code points, trimming and conflating spaces, replacing, splitting (with and without delimiters and empty parts), joining, measuring lines, and walking, classifying and writing code points '
     'give exactly what their documentation says of the sequence of code points of the text: occurrences are found from left to right and do not overlap, an empty string never occurs more than zero times, replacing an occurrence by itself or joining the parts of a split with its delimiter gives the text back, the parts of a split contain no delimiter and lie within the text. '
     'The answer is the same for UTF-8 and UTF-32 texts (but for positions and lengths, which count units), and for strings, views and pointers, and every call ends.',
     ['inputs'], 'all texts of all forms of string, delimiters, patterns, replacements and widths',
     'The tests compare one or two ASCII texts per function; overlapping and adjacent occurrences, empty arguments, the ends of the text, and code points of every encoded length (also those that change their length with their case) are left.',
     ['Util/Strings.hpp', 'Util/Impl/StringsImpl.hpp', 'Type/Character.hpp'],
     [('string functions', 'Strings'), ('replacement', 'Impl::replaceAllImpl'), ('splitting', 'Strings::splitImpl/split'), ('code points', 'Character')], SEQ,
     note=SEQ_NOTE + ' Tabs and line breaks at the ends of trimmed texts, splitting an empty text, malformed UTF-8, and the classes of characters that are not ASCII are not judged. Regular expressions are sets of characters and runs of them.')
prop('C30', 'Values convert to text and back without loss, and no other text converts',
     'Converting a value to a UTF-8, UTF-16 or UTF-32 string gives its text: an integer of any type its decimal digits, a boolean its name, a character or text of any encoding and form (string, view, pointer) the same code points, a pair or a container its elements in order between braces, several values their texts joined. '
     'Converting a text to a type gives the value of the text, in any base for integers, if and only if the whole text is one of a value of the type, and a conversion exception otherwise, above all for numbers out of range, trailing characters and empty texts; converting the text of a value gives the value again, bit for bit for floating point numbers. '
     'The answer does not depend on the encoding, on which of the functions or functors is called, or on whether the value is a constant, a temporary or a variable.',
     ['inputs'], 'all values of all built-in types, texts, pairs and containers; all texts and bases',
     'No test converts to or from a string on its own; limits of types, numbers in other bases, UTF-16 and UTF-32, constants and containers are left.',
     ['Type/FromString.hpp', 'Type/ToStringS.hpp', 'Type/ToStringA.hpp', 'Type/Impl/FromStringImpl.hpp', 'Type/Impl/ToStringImpl.hpp', 'Type/Character.hpp'],
     [('range checks', 'Impl::safeNumericCast'), ('number conversions', 'Impl::stringToLong etc.'), ('digits of a number', 'Impl::toString'), ('containers', 'toStringHelper')], SEQ,
     note=SEQ_NOTE + ' A plus sign or blanks before a number, prefixes that tell the base, hexadecimal and very small floating point texts, malformed UTF, characters from 128 to 255 as a char, and containers of containers are not judged. Floating point texts of up to four and three digits are compared with their exact values.')
prop('C31', 'An assertion passes exactly if its matcher holds, and its failure says what was compared',
     'An assertion throws an assertion exception if and only if its matcher does not hold for the actual and expected values: equality, order, nearness within the given error, null pointers, the start, end and contents of texts and the start of vectors, by the elements of the values whatever their type; is-a assertions, exactly if the actual object is of the class or one derived from it; '
     'assertions of exceptions call the function once and pass exactly if it throws an exception of the type (or derived) that is equal to the instance, satisfies the comparison, or the predicate. All forms (function or macro, with or without location, message, or rendering) give the same verdict. '
     'The exception of a failed assertion starts with the given location and message; unless rendering is suppressed, both values follow side by side, every line or element in order with its number, marked == exactly if the two are equal, blanks, tabs and control characters made visible; failed exception assertions tell what was thrown instead.',
     ['inputs', 'configurations'], 'all values of comparable types, matchers, forms and exceptions',
     'The assertions are what the tests are written with; nearly all of those pass, and none looks at failures, other types of element, or every form.',
     ['Testing/Assertions.hpp', 'Testing/Matchers.hpp', 'Testing/Impl/MatcherClasses.hpp', 'Testing/Impl/StandardRenderers.hpp', 'Exception/TestExceptions.hpp', 'Type/SourceCodeLocation.hpp'],
     [('verdict and text of a failure', 'assertThat / assertThatNP'), ('comparison of a matcher', 'MatcherFunction::matches'), ('values side by side', 'TestRenderers::render'), ('elements side by side', 'TestRenderers::renderHelper')], SEQ,
     note=SEQ_NOTE + ' Texts with carriage returns outside containers, unsigned values nearer to zero than the error, what the rendering of floating point numbers and pointers looks like, and the alignment of columns are not judged; nor is what happens to exceptions that are not standard ones, except that the assertion does not pass.')
prop('C32', 'URL encoded data decodes to exactly what was encoded, and only if it is well formed',
     'Decoding URL encoded text gives a blank for every plus sign, the byte of every percent sign with its two hexadecimal digits, and every other character as it is; nothing outside the given text has any influence. Runs of encoded bytes are kept or ignored as a whole: if UTF-8 is checked, those that are not valid (RFC 3629: no overlong forms, no surrogates, nothing above 10FFFF) are ignored. '
     'If errors are to be thrown, exactly the texts with such a run or with a percent sign that is not followed by two hexadecimal digits give a network exception, otherwise none is thrown. What is encoded in any form decodes to itself. Splitting gives the keys and values between ampersands and equals signs, the value empty if there is none; more than one equals sign gives a network exception; splitting and decoding is the same followed by decoding. '
     'The media type of a path is the one of its extension, after the last dot, in any case, in the given table; nothing if the table does not have it.',
     ['inputs'], 'all byte sequences, parameter lists and paths',
     'The tests decode five well formed texts; none has an error, invalid UTF-8, or ends within a percent sequence.',
     ['Network/Utilities/UrlDecode.hpp', 'Network/Utilities/MimeTypes.hpp', 'Network/Utilities/MimeTypes.cpp'],
     [('decoding', 'UrlDecode::decode'), ('splitting', 'UrlDecode::split / splitAndDecode'), ('media types', 'MimeTypes::lookup')], SEQ,
     note=SEQ_NOTE + ' How many characters of a malformed percent sequence are ignored, parameters with an empty key or with adjacent equals signs, and which of several values of one key stays are not judged.')
prop('C33', 'A digest is the one its algorithm defines for exactly the bytes given, however they are given',
     'The CRC-32, MD5, SHA-1, SHA-256, SHA3-256 and Keccak-256 hashes of a text, a stream and a file are those that the standards define for the bytes of the text, of the rest of the stream and of the file, as lower case hexadecimal digits; it makes no difference how long they are, or in which pieces a stream delivers them. Digest objects (of all lengths for SHA-3 and Keccak) that are given pieces in any way answer with the digest of all that was added since they were made or reset, at any time and any number of times; '
     'calling one digests what is given to the call only. Hashing a file that does not exist or is not a regular file gives a file not found exception, one that cannot be opened a could not open exception.',
     ['inputs', 'histories', 'faults'], 'all contents, lengths, pieces and histories of the digest objects',
     'No test of the repository checks a single digest; errors at the borders of blocks and padding need contents of particular lengths.',
     ['Util/Hashing.hpp', 'ThirdParty/HashLibrary/crc32.h', 'ThirdParty/HashLibrary/md5.h', 'ThirdParty/HashLibrary/sha1.h', 'ThirdParty/HashLibrary/sha256.h', 'ThirdParty/HashLibrary/sha3.h', 'ThirdParty/HashLibrary/keccak.h'],
     [('contents in pieces', 'Hashing::computeHash'), ('files', 'Hashing::getFileStream'), ('pieces and blocks', 'add'), ('padding', 'processBuffer'), ('the algorithms', 'processBlock')], SEQ,
     note=SEQ_NOTE + ' Contents longer than a few blocks (up to 3 MB) are only compared between the forms.')
prop('C34', 'Numbers, durations, times and bytes are printed as what they are',
     'A value printed in fixed or scientific notation is the value, rounded to the given number of decimal places. Printed with a metric or binary prefix it is the value as a multiple of the power of 1000 or 1024 that the prefix stands for, the one that leaves at least 1 and at most 1000 (1024) of it as far as there are prefixes; negative values have a minus sign and the prefix of their magnitude, zero has none. '
     'A duration shorter than a minute is printed as seconds with a metric prefix, a longer one as days, hours, minutes and seconds, from the first that is not zero, all others in range and with two digits, which together with the decimals are the duration, rounded; a minus sign comes first. '
     'Bytes are printed as two hexadecimal digits each, in order, in groups of the given size and in lines as full as the given length allows. Time points are printed as their date in the Gregorian calendar and time of day; durations below a day print as clock times and are read back unchanged.',
     ['inputs'], 'all values, precisions, durations, dumps and dates',
     'The tests print a few positive values of each magnitude; none prints zero, a negative or a rounded-up value with a prefix, or any bytes.',
     ['Util/PrettyPrint.hpp', 'Util/DateTime.hpp'],
     [('prefixes', 'PrettyPrint::metricPrefix / binaryPrefix'), ('durations', 'PrettyPrint::duration'), ('bytes', 'PrettyPrint::printHexBytes'), ('times', 'DateTime::toString / toDuration')], SEQ,
     note=SEQ_NOTE + ' Rounding is judged up to the precision of the number types; dumps whose groups do not fit the line, whether a single line is grouped, and blanks at the ends of lines are not judged.')
prop('C35', 'The directories of an application follow the environment and the user, and do not move',
     'The user data directory of an application is $XDG_DATA_HOME/group/name, or $HOME/.local/share/group/name if that variable is not defined; the user configuration directory is $XDG_CONFIG_HOME/group/name, or $HOME/.config/group/name; the runtime directory is $XDG_RUNTIME_DIR/group/name, or $TMPDIR/group/name, or /tmp/user/group/name. '
     'A variable that is empty or blank counts as not defined, and blanks around its value do not matter. Without $HOME the home directory is the one the system has for the user, however long it is; if the system does not know the user either, an exception is thrown. The global directories are share/group/name/data and config next to the directory of the program. '
     'The answer is fixed by the first successful call for the life of the process. The runtime directory exists after the call, belongs to the user, and if the call created it nobody else has access to it; if it cannot be created an exception is thrown.',
     ['configurations', 'inputs', 'faults'], 'all states of the variables, users with and without entries, existing, missing and unwritable directories',
     'The tests ask once each, in the environment they happen to run in, and compute the expected answer the same way.',
     ['Util/App.hpp', 'Util/Impl/AppImpl.hpp', 'Util/User.hpp'],
     [('directories', 'App::get*Directory'), ('home', 'User::getHomeDirectory / getUserName')], SEQ,
     note=SEQ_NOTE + ' The system\'s users are stand-ins in the harness, and the calls are made as an unprivileged user.')
prop('C36', 'The container, pointer and stream utilities keep every element, once and in order',
     'Appending, moving and concatenating give the elements of the destination followed by those of each source, in order, and leave the sources as they were; pushing several values appends them in the order given; mapping gives the function\'s result for each element, in order; a container contains a value if an element equals it, and one of several values if it contains any of them. '
     'Push back or replace replaces the first element that matches, by assignment or by the given function, and appends the value only if none matches. Making unique or shared pointers of arguments calls the function once for each argument, in order, and gives the pointers it made in that order. '
     'Strings and vectors of characters convert into each other unchanged. Reading lines gives the text between the line breaks, where one at the end ends the last line; reading or consuming a stream gives its whole text, and consuming leaves the destination usable, also when the source is empty.',
     ['inputs'], 'all contents of all kinds of containers, all texts',
     'The utilities for vectors, containers and pointers have no tests of their own; other tests use a few of them on one kind of container.',
     ['Util/Vectors.hpp', 'Util/Containers.hpp', 'Util/Memory.hpp', 'Util/Streams.hpp'],
     [('vectors', 'Vectors::*'), ('containers', 'Containers::*'), ('pointers', 'Memory::make*'), ('streams', 'Streams::* / toString(istream)')], SEQ,
     note=SEQ_NOTE + ' Self append, and containers of texts in contains() (which do not compile), are not judged.')
prop('C37', 'Random numbers stay within their bounds and reach them; UUIDs are distinct, ordered and print as their bytes',
     'A uniform random number generator of any type gives numbers from its lower to its upper bound, both included and none outside, and reaches every number of a small range and every part of a wide one, whatever the signs and sizes of the bounds. '
     'Generators with the same type, bounds and seed give the same numbers, those with different seeds, or seeded by themselves, different ones. '
     'Every new UUID is a random (version 4) UUID different from all others, also of other threads; a copy equals its original; bytes, array and text are the same value, the text in the usual form of lower case hexadecimal digits; comparisons are the order of the bytes.',
     ['inputs', 'histories'], 'all bounds, seeds and types; all UUIDs that are made',
     'The only test draws ten doubles between 0 and 1 from one seed; UUIDs have no test.',
     ['Util/Random.hpp', 'Util/Impl/RandomImpl.hpp', 'Type/UUID.hpp'],
     [('numbers', 'RandomNumberGenerator'), ('bounds', 'Impl::inclusivise'), ('identifiers', 'UUID')], SEQ,
     note=SEQ_NOTE + ' A range counts as small up to 16 numbers, drawn until a miss has a chance below 1 in 10^20; distributions other than the uniform ones are not judged.')
prop('C15', 'Injector requests resolve to the nearest matching binding, with documented promotions',
     'A request to an injector for a type, kind of pointer and name is provided by the nearest injector of its hierarchy with a binding of that kind and name, looking in parents only when the child has none; otherwise, by documented promotion, searched over the whole hierarchy: weak pointers come from shared bindings, '
     'const shared, unique and reference requests from the non-const bindings, never the reverse. The binding decides what is returned: the same object for singletons, one per thread for thread local singletons, a new one for each unique pointer and value request, the referenced object for references, the provider\'s product for providers. '
     'A request that nothing provides throws a no binding exception, or gives the supplied default or the result of the supplied function, which is not called otherwise. Has-binding queries and iteration report exactly the bindings there are.',
     ['configurations', 'inputs'], 'all sets of bindings of all kinds over all hierarchies of injectors, all requests',
     'The tests check hand-picked combinations; the key and promotion rules are a matrix over kinds, constness, names, levels and ways of binding.',
     INJ, [('binding keys by type id and name with weak and const promotion', 'Injector::getBinding/findBinding'), ('binding classes per way of binding', 'Binding.hpp')], SEQ, note=SEQ_NOTE)
prop('C16', 'Injected objects are made once where promised and live exactly as long as they are held',
     'A lazy or eager singleton is constructed at most once per binding, however many threads, kinds of request and injectors of the hierarchy ask for it, and is fully visible to all of them; a constructor that throws lets the exception out and a later request tries again. Everything an injector makes gets its dependencies from the injector that owns the binding, as if requested there. '
     'Singletons live at least as long as the injector that made them, or anything that holds them, does; once injectors, holders, statics and threads are gone, every object made or handed over is destroyed exactly once, with its deleter, and pre-destruction functions run exactly once before. Prototype injectors share the singletons of the prototype.',
     ['histories', 'schedules', 'fault_sequences'], 'all histories of creating injectors, requesting, dropping injectors and ending threads, all interleavings of requests of lazy singletons',
     'Tests never count constructions and destructions over a history, and never race requests.',
     INJ + ['Concurrent/LazyValue.hpp', 'Concurrent/ThreadLocalInstance.hpp'], [('lazy value per singleton binding', 'SingletonBinding::get'), ('shared parent pointers keep ancestors alive', 'Injector')], SEQ + '; concurrent requests: ' + CTL, note=SEQ_NOTE + ' ' + CTL_NOTE)
prop('C17', 'Injector creation detects every invalid configuration and only those, before making anything',
     'Creating (or validating) an injector throws if and only if its configurations bind the same kind and name twice, depend on something that nothing in the hierarchy provides, depend on each other in a cycle, or make a singleton hold its own injector, with the exception for a problem that exists; nothing has been constructed or called then. '
     'Otherwise everything that can be requested can be resolved without missing dependencies or endless recursion, whatever the declaration order; all configurations, extra configurations (of extra configurations) included, contribute their bindings. Eager singletons and providers are made during creation, dependencies first, '
     'then the post-construction functions of the configurations run once each, in order, with the new injector. Validation gives the same verdict and makes and calls nothing.',
     ['configurations', 'inputs'], 'all sets of bindings with all dependency relations, in one injector or over a hierarchy, all ways of passing the configurations',
     'The tests have one example of each problem, in a single form.',
     INJ, [('validation against the binding map and a dependency graph', 'Injector::initialise / Injector validation'), ('instantiation in dependency order', 'instantiateIfEager')], SEQ, note=SEQ_NOTE)
prop('C18', 'Every injection macro injects each dependency, in position, for every number of them',
     'For every form of the injection macros (plain, construct, named, with types, header and body), every supported number of dependencies (0 to 16) and every kind of dependency, the class is constructed with exactly the declared dependencies in their positions, each resolved by its declared type and name, and exactly those dependencies are declared to validation: leaving any one of them unbound makes injector creation report it missing.',
     ['configurations', 'inputs'], 'all macro forms, numbers, positions and kinds of dependencies',
     'Macros are written out per number of arguments; tests use up to four.',
     ['Application/Injectable.hpp', 'Application/Inject.hpp', 'Application/InjectBody.hpp', 'Application/InjectHeader.hpp', 'Application/Impl/InjectorMacros.hpp', 'Application/Impl/InjectorHeaderMacros.hpp', 'Application/Impl/InjectorBodyMacros.hpp', 'Application/Impl/MacrosImpl.hpp'],
     [('one macro per number of dependencies', 'InjectorMacros.hpp/InjectorBodyMacros.hpp')], SEQ, note='Enumerates macro forms and numbers of dependencies completely, with a rotation of the kinds over the positions; the harness and the generator of the classes are trusted.')
prop('C19', 'Property texts parse to exactly the properties they contain, and print back to the same',
     'Parsing a hierarchical property text gives exactly the properties, blocks, comments, include directives and empty lines it contains, in order, with their nesting, their raw names and values, whatever assignment characters, blanks, escapes, line continuations and kinds of line break (LF, CR, CRLF, LFCR) it uses, and whether it ends in a line break or not; '
     'a text that is not of the format (unbalanced braces, a missing name, text after a brace, invalid UTF-8) is a syntax error, never a wrong or partial result. The final form of a name or value is the raw one with escapes and line continuations processed. The parsed properties stay valid when moved. Printing and parsing again gives the same properties.',
     ['inputs'], 'all texts',
     'The tests parse a few well-formed documents; line break kinds, escapes at token boundaries, short texts and malformed texts are combinatorial.',
     ['Lang/Property/PropertyParserService.hpp', 'Lang/Property/Parser/PropertyParser.hpp', 'Lang/Property/Parser/PropertyScanner.hpp', 'Lang/Property/Lang/PropertyAst.hpp', 'Lang/Property/Util/PropertyAstToString.hpp', 'Lang/Common/AbstractScanner.hpp', 'Lang/Common/ScannedTokens.hpp'],
     [('scanner with one mode per line part', 'PropertyScanner::getNextToken'), ('recursive descent over scanned tokens', 'PropertyParser'), ('escape processing', 'PropertyNode::normalise')], SEQ, note=SEQ_NOTE + ' What the manual leaves open (unescaped @ or braces in names and values, an empty include directive) is not judged, except that it must not crash.')
prop('C20', 'Environment configurations bind exactly the properties of their sources, typed by the cascaded specifications',
     'For every set of property sources and type specification sources (files, URIs, strings, hard wired specifications, with nested includes relative to the including text), building an environment configuration and an injector from it gives exactly these bindings: every property under its unescaped name and path, with its value converted to the type of the last specification for that path (string when there is none), plus the defaults of specifications whose property is absent; groups for every block. '
     'Later specification sources override earlier ones; values and groups keep their paths at every depth; a value that does not convert, an unknown type, a clash of a value with a group, a syntax error or a missing file is the corresponding exception. The same configuration builds the same bindings for every injector made from it, and the bound groups answer getValue, getUnique, getShared, defaults and iteration consistently with the bindings.',
     ['inputs', 'configurations'], 'all property texts, specification texts, cascades and ways of giving them',
     'The test of environment configuration is not even compiled in the repository; escaped names, defaults, cascades of several sources and reuse are never exercised.',
     ['Application/EnvironmentConfiguration.hpp', 'Application/EnvironmentProperties.hpp', 'Application/Impl/PropertyTypeSpecificationVisitor.hpp', 'Application/Impl/EnvironmentConfigurationBuilderUtils.hpp', 'Application/Impl/PropertyBindingBuilderFactory.hpp'], [('cascade of tries of type specifications', 'EnvironmentConfiguration constructors'), ('binding builders', 'PropertyBindingBuilderFactory')], SEQ, note=SEQ_NOTE + ' Repeated names in one source, values given by several sources, empty defaults and defaults of specifications whose property is a block are left open.')
prop('C21', 'Command lines are parsed to exactly the options, values and final values given',
     'For every set of options and every argument list, parsing gives exactly the options that are present (by abbreviated or full switch, in either style, or detected from the first argument), the last value given to each, and the final values in order, independent of previous parses and of how the arguments are passed; '
     'an unknown switch, a missing option value, a missing mandatory final value or an unexpected value is the corresponding exception and nothing is read beyond the arguments. Numeric getters return the exact number written or throw an option value exception when the text is not wholly a number of that type; absent options throw or give the default. '
     'The help text lists every option once, in key order, with its switches and complete documentation.',
     ['inputs', 'configurations'], 'all sets of options, styles, final value modes and argument lists',
     'The tests parse one well-formed command line per style; ends of argument lists, repeated parses and limits of number types are not covered.',
     ['Application/CommandLine.hpp'], [('one loop per style over the arguments', 'parseSwitchEqualsValue/parseSwitchSpaceValue'), ('narrowing conversions', 'getOptionAs')], SEQ, note=SEQ_NOTE + ' Lenient forms that the documentation does not define (a full switch with one dash, a separate value in the equals style, a value for a flag) are not judged.')
prop('C22', 'A logging configuration decides what every logger writes, where, and in which form',
     'For every configuration of logging namespaces (text with any placeholders and included files, or environment properties), every logger has exactly the level, format, flush option and streams of its own namespace over those of its ancestors over the defaults (stream options as one group, level streams falling back as documented), whether it was obtained before or after configuring, and again after every reconfiguration or reset; a locked or malformed configuration changes nothing. '
     'Asking for a namespace always gives the same logger. A message is written exactly when the level is enabled, once, as one line, to the stream of its level, in the form of the configured format with every specifier replaced and every placeholder of the message filled in order; functions are called only for enabled levels. '
     'Each stream is created once and shared by all namespaces that name it; streams are flushed after a message if and only if flushing is on, and by flush, flushAll and reconfiguration.',
     ['configurations', 'inputs', 'histories'], 'all namespace configurations, sequences of reconfigurations and logger requests, messages, parameters and formats',
     'The tests use a few fixed configurations and messages; cascading over several reconfigurations, missing parameters, brackets and quotes in messages and formats, and includes are not covered.',
     ['Logging/Logger.hpp', 'Logging/Logger.cpp', 'Logging/Impl/LoggingState.cpp', 'Logging/Impl/LoggerItems.cpp', 'Logging/Impl/LoggerMessageItems.hpp', 'Logging/Impl/LoggingStreams.cpp', 'Logging/Impl/LoggerPropertyVisitor.hpp', 'Logging/Impl/LoggerConfigurationVisitor.hpp', 'Logging/Impl/LoggerHolder.cpp'],
     [('tree of loggers with cascading properties', 'LoggingState::cascadeAndConfigureLoggers'), ('compiled format items', 'LoggingState::createLoggerItems'), ('placeholder loop', 'LoggerMessageItem')], SEQ, note=SEQ_NOTE + ' Stream URIs of unknown schemes and dated log files are not judged.')
