#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run it to regenerate the file).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
B='src/mg/box/'; S='src/mg/sch/'; N='src/mg/net/'; A='src/mg/aio/'; O='src/mg/sio/'; T='src/mg/test/'

# ---- containers -----------------------------------------------------------------------
p('C01','ForwardList is a sequence under every operation history',
 'After any history of push, pop, append, prepend, insert, pop-all, splice, move-construction, move-assignment, clear and reverse operations over any number of intrusive forward lists, every list holds exactly the items that a plain sequence subjected to the same operations would hold, in the same order, with correct first/last/emptiness answers. Moving from a list leaves the source empty and independent of the destination.',
 ['histories'],'every history of list operations (bounded length, bounded items) including operations on empty lists and moves between lists',
 'ForwardListTest exercises one hand-written history per method; the quantifier is over all histories and their combinations (a move followed by an append on the moved-to list and so on).',
 [B+'ForwardList.h'],[('first pointer plus pointer to the last link','ForwardList')],['GetFirst/GetLast/PopFirst/PopAll/iteration'])
p('C02','DoublyList is a sequence under every operation history',
 'After any history of append, prepend, remove, pop, pop-all, splice, reverse, clear and move operations over any number of intrusive doubly-linked lists, forward and backward traversal of each list both yield exactly the items a plain sequence would hold, and first/last/emptiness agree with it. An item which left a list has both of its links cleared and can be added again.',
 ['histories'],'every history of list operations (bounded length, bounded items)',
 'DoublyListTest covers selected histories; corner combinations (remove of head or tail after a splice into an empty list) are not enumerable by hand.',
 [B+'DoublyList.h'],[('first/last pointers and two links per item','DoublyList')],['GetFirst/GetLast/PopFirst/PopLast/Remove/iteration'])
p('C03','BinaryHeap always yields the extreme element and keeps every element',
 'After any history of push, pop, remove, update and reserve operations the heap holds exactly the elements which were pushed and not yet removed, its top is never worse than any other element, and successive removals of the top produce the elements in order. For intrusive heaps each element knows its own position while it is inside and is marked as absent once it leaves.',
 ['histories','inputs'],'every history of heap operations with arbitrary (including equal) keys, every flavour (min/max, by value/by pointer/intrusive)',
 'BinaryHeapTest checks permutations of few fixed keys; equal keys combined with update/remove in the middle of bigger heaps are not all covered.',
 [B+'BinaryHeap.h'],[('sift up/down and index updates','BinaryHeapBase')],['GetTop/Pop/RemoveTop/Remove/Update/Count'],
 [('myIndex','position of an item inside of an intrusive heap',B+'BinaryHeap.h')])
p('C04','Thread-local pool never hands out the same memory twice',
 'At any moment, for any history of allocations and frees performed by any number of threads (frees in other threads than the allocating one included), the memory blocks handed out by a pool and not yet freed are pairwise disjoint, are big enough and aligned for the pooled type, and a block which was freed is reused rather than leaked or handed out to two owners.',
 ['histories','schedules'],'every bounded history of allocations and frees across threads, every batch boundary',
 'ThreadLocalPoolTest uses two batch sizes and straight-line histories, while the defects appear at batch/chain boundaries crossed in both directions.',
 [B+'ThreadLocalPool.h'],[('chains of free objects, local then global','ThreadLocalPool::AllocateT/FreeT')],['operator new/delete of ThreadPooled types'])
p('C05','Shared pointers destroy the object exactly once, after the last owner',
 'For any history of copies, moves, assignments (self-assignments and assignments between pointers to the same object included), wraps, unwraps and clears of intrusive shared pointers, the object is alive as long as at least one pointer refers to it and is destroyed exactly once when the last one lets it go.',
 ['histories'],'every bounded history of pointer operations over a bounded number of pointers and objects',
 'SharedPtrTest checks each operator once, with distinct objects; aliasing between the operands is what breaks the counting.',
 [B+'SharedPtr.h',B+'RefCount.h'],[('intrusive reference counter','SharedPtrIntrusive, RefCount')],['destructor calls of the pointed object'])
p('C06','Reference counting is safe between threads',
 'When several threads drop their references to the same object concurrently, under any schedule exactly one of them destroys it, nobody touches it after that, and everything each thread did with the object before dropping its reference happens before the destruction.',
 ['schedules'],'every schedule of two and three threads copying and dropping references',
 'The unit tests run it single-threaded; the last clause is about memory ordering which x86 hardware hides from any test.',
 [B+'RefCount.h',B+'SharedPtr.h'],[('atomic increments/decrements','RefCount::Inc/Dec')],['destructor calls of the pointed object'])
# ---- queues and sync ------------------------------------------------------------------
p('C07','Multi-producer queue loses, duplicates and reorders nothing',
 'With any number of producers pushing single items or chains concurrently with a single consumer popping everything, under any schedule each item is returned by exactly one pop, the items of one producer come out in the order they were pushed (or in exactly the reverse order when the reversed pop is used), and the data written by a producer before the push is visible to the consumer after the pop. A push reports that the queue was empty if and only if it was empty at that moment, so for each burst exactly one producer learns it has to wake the consumer.',
 ['schedules','histories'],'every schedule of up to three threads with bounded pushes and pops',
 'The stress tests sample schedules on a strongly ordered CPU.',
 [B+'MultiProducerQueueIntrusive.h'],[('lock-free stack reversed by the consumer','Push/PushMany/PopAll')],['Push return values, PopAll results'])
p('C08','Multi-consumer queue delivers each item exactly once, in order',
 'With one producer (or producers serialised by the queue) and several consumers, under any schedule and for any sub-queue size each flushed item is popped exactly once by exactly one consumer, each consumer sees items in the order they were pushed, an item pushed as pending never becomes visible before a flush, and a pop by an up-to-date consumer returns nothing only when no flushed item was left for it to take. Data written before the push is visible to the consumer which popped the item.',
 ['schedules','histories','configurations'],'every schedule of a producer and up to two consumers over bounded pushes, every small sub-queue size, sub-queue recycling included',
 'MultiConsumerQueueTest and the benchmarks sample schedules; recycling of consumed blocks makes rare ABA-like histories.',
 [B+'MultiConsumerQueue.h',B+'MultiConsumerQueueBase.cpp'],[('write/read positions of blocks, block reference counting','MultiConsumerQueueBase')],['Push/PushPending/FlushPending/Pop/Count'])
p('C09','Multi-consumer queue behaves as a FIFO in any sequential history',
 'For any history of push, push-pending, flush, reserve, pop, attach and detach calls made by one thread through any number of consumers, pops return the flushed items in exactly the order of pushes with nothing lost or duplicated, and the count equals the number of flushed but not popped items. A detached consumer can be attached again and never blocks recycling of the consumed storage.',
 ['histories','configurations'],'every bounded history of calls, every small sub-queue size',
 'The tests follow a few fixed histories.',
 [B+'MultiConsumerQueue.h',B+'MultiConsumerQueueBase.cpp'],[('block lists','MultiConsumerQueueBase')],['Pop/Count'])
p('C10','Signal: no lost and no phantom receipts',
 'Each receipt of a signal corresponds to at least one send which happened since the previous receipt, and a receiver waiting (or going to wait) for a signal which was sent is always woken up, under any schedule of senders and one receiver. Whatever the sender did before sending is visible after the receipt, and the receiver may destroy the signal object as soon as the receipt returned even though the sender may still be returning from the send.',
 ['schedules'],'every schedule of up to two senders and a receiver using blocking, timed and non-blocking receipt',
 'SignalTest samples; a lost wakeup needs one exact interleaving, and the destruction race shows up only when the sender is suspended inside of the send.',
 [B+'Signal.h',B+'Signal.cpp'],[('state word plus mutex and condition variable','Signal')],['Send/Receive/ReceiveBlocking/ReceiveTimed'])
p('C11','Interruptible mutex excludes, wakes and never loses a waiter',
 'At most one thread is inside of the mutex at any time under any schedule; a thread which waits for it is eventually let in once the owner leaves; the owner is told about the waiter through the wakeup callback; and everything done by the previous owner is visible to the next one.',
 ['schedules'],'every schedule of up to three threads locking, try-locking and unlocking',
 'InterruptibleMutexTest samples the schedules.',
 [B+'InterruptibleMutex.h',B+'InterruptibleMutex.cpp'],[('state word with taken/waiting flags','InterruptibleMutex')],['Lock/TryLock/Unlock'])
p('C12','Mutex and condition variable keep ownership and recursion straight',
 'For any nesting of lock, try-lock and unlock calls by any threads, the mutex is owned by the thread which locked it until it has unlocked it as many times, the ownership query answers true exactly in the owner, and waiting on a condition variable releases the mutex and returns owning it again. Timed waits report a timeout only if the time has passed, for every timeout value including the infinite one.',
 ['schedules','histories','inputs'],'every bounded history of two threads and every timeout value',
 'MutexTest and ConditionVariableTest use few fixed timeouts and histories.',
 [B+'Mutex.h',B+'Mutex.cpp',B+'ConditionVariable.cpp'],[('owner thread id and recursion counter','Mutex')],['Lock/TryLock/Unlock/IsOwnedByThisThread/TimedWait'])
# ---- values ---------------------------------------------------------------------------
p('C13','Time limits convert without wrap-around',
 'For every current time and every duration or time point, converting between durations, points and limits never wraps around: a point computed from a duration is not earlier than now and equals now plus the duration unless it saturates to infinity, a duration computed to a point equals the remaining time and is zero when the point has passed, infinity stays infinite and negative durations mean zero.',
 ['inputs'],'every 64-bit clock value and duration/point value',
 'TimeTest has a handful of values.',
 [B+'Time.h'],[('saturating arithmetic','TimeDuration/TimeLimit conversions')],['ToPointFromNow/ToDurationFromNow'])
p('C14','String to number conversion accepts exactly representable decimals',
 'For every byte string, conversion to a 16, 32 or 64-bit unsigned number succeeds only if the string (leading whitespace and plus aside) is a non-empty sequence of decimal digits whose value fits into the type, then it yields this exact value, and otherwise it reports a failure without touching a narrower output. Trimming removes exactly the leading and trailing whitespace, whatever the string is.',
 ['inputs'],'every string up to a bound, values around each type limit',
 'StringTest has a table of examples.',
 [B+'StringFunctions.cpp'],[('strtoull with pre- and post-checks','StringToNumber'),('trim from both ends','StringTrim')],['StringToNumber, StringTrim'])
p('C15','Vector propagation consumes exactly the given number of bytes',
 'For any array of memory vectors (zero-sized ones included) and any number of bytes not exceeding their total size, propagation by this number leaves vectors describing exactly the remaining bytes in the same order and the count matching them.',
 ['inputs'],'every bounded array of vectors and every offset',
 'IOVecTest has few examples.',
 [B+'IOVec.cpp'],[('cursor advance','IOVecPropagate')],['IOVecPropagate outputs'])
p('C16','Error codes map one to one and keep their class',
 'Every error code of the library has a stable unique tag, a message and belongs to exactly one category; each supported operating-system error number maps to the same library code however it is raised and unknown numbers map to the generic system code. Wrapping an error into another one keeps the original code.',
 ['inputs'],'every error code and every errno value',
 'ErrorTest checks several codes.',
 [B+'Error.h',B+'Error.cpp'],[('code tables','ErrorCodeFromErrno, ErrorCodeMessage, ErrorCodeTag')],['ErrorCode* functions, ErrorRaise'])
p('C17','Nested coroutines run and return in call order and are freed once',
 'For any nesting of coroutines, resuming the root continues the innermost suspended one, completion of a nested coroutine resumes its caller exactly once, and destruction of the root at any suspension point destroys every coroutine of the stack exactly once, from the top. A coroutine being the body of a task is continued in its order with all the done visible, its executions never overlap, and exits from it (with deletion, to a plain callback, with a signal) destroy the whole stack first.',
 ['histories'],'every bounded nesting and suspension pattern, destruction at every suspension point',
 'CoroTest follows fixed stacks.',
 [B+'Coro.h',B+'Coro.cpp','src/mg/sch/Task.cpp'],[('linked stack of coroutine promises','CoroRef/CoroPromise')],['ResumeTop and destructors'])
# ---- scheduler ------------------------------------------------------------------------
p('C18','A task is executed once per post and never in two threads at once',
 'Each posted task (posted plainly, with a delay or deadline, from outside or from a worker, re-posted from its own body, or one-shot) is executed exactly once per post whatever the number of workers, the batch size and the schedule are, and its executions never overlap. Whatever was done before the post is visible in the execution, and what one execution did is visible in the next one.',
 ['schedules','configurations'],'every schedule of bounded length with one or two workers and a poster, every small batch size',
 'TaskSchedulerTest samples schedules on x86 and uses big batch sizes only.',
 [S+'TaskScheduler.cpp',S+'Task.cpp'],[('front, waiting, pending and ready queues','TaskScheduler'),('task status word','Task')],['task callbacks'])
p('C19','Task wakeups and signals are never lost, signals are received once',
 'After a wakeup or a signal is posted to a task which is anywhere in the scheduler or is being executed, the task is executed at least once more without waiting for its deadline (unless the very execution which was running consumed the signal); each sent signal is received by at most one receipt, stays pending until received, and the data written before sending is visible after receiving.',
 ['schedules'],'every bounded schedule of a task, a waker/signaler and the workers',
 'The stress tests sample; the races are between the status word and the queue moves.',
 [S+'Task.cpp',S+'TaskScheduler.cpp'],[('status word transitions','Task::PostWakeup/PostSignal/ReceiveSignal, TaskScheduler::PrivSchedule')],['task callbacks, ReceiveSignal results'])
p('C20','Deadlines: never early, always eventually, order and expiration are right',
 'A task posted with a deadline or a delay is not executed before this time unless it was woken up or signaled, is executed once the time has come, reports being expired if and only if its time had come when it was scheduled, of the tasks which are already waiting those with earlier deadlines are dispatched first, and the deadline does not leak into the next post.',
 ['inputs','histories'],'every bounded set of deadlines, wakeups and clock advances',
 'Time is real in the tests, so they use few deadlines with big margins.',
 [S+'TaskScheduler.cpp',S+'Task.cpp'],[('waiting queue ordered by deadline','TaskScheduler::PrivSchedule')],['task callbacks, IsExpired'])
p('C21','The scheduler reports being empty only when no work is left',
 'Whenever the scheduler reports being empty, no task is queued in it (a task put to sleep with no deadline is not), no task is being executed by its workers and nothing they have executed is going to re-post itself; stopping a scheduler ends with all its workers joined under any schedule.',
 ['schedules'],'every bounded schedule of a worker pair and an observer',
 'Needs a preemption between two reads inside of the emptiness check.',
 [S+'TaskScheduler.cpp'],[('worker states and queue sizes','TaskScheduler::IsEmpty')],['IsEmpty/WaitEmpty results against running callbacks'])
# ---- net ------------------------------------------------------------------------------
p('C22','A buffer stream is a byte queue under every operation history',
 'For any history of appending (by copy, by reference, into reserved space), reserving, peeking, reading, skipping and popping operations the stream delivers exactly the bytes which were written, in order, with sizes always telling the exact amount of readable and reserved bytes; having nothing to read and nothing reserved it is empty.',
 ['histories','inputs'],'every bounded history with arbitrary sizes around buffer boundaries',
 'BufferTest walks fixed histories.',
 [N+'Buffer.h',N+'Buffer.cpp'],[('chain of buffers with read and write positions','BufferStream')],['ReadData/PeekData/SkipData/GetReadSize/GetWriteSize'])
p('C23','A send queue of buffer links is a byte sequence and never alters shared data',
 'For any history of appending (by move, reference, copy), skipping bytes and skipping empty prefixes, the list of buffer links describes exactly the not yet skipped bytes in order, and none of the operations changes buffers which are also referenced from elsewhere.',
 ['histories','inputs'],'every bounded history with chains of buffers, empty buffers included',
 'BufferTest walks fixed histories; sharing one chain between several queues is what the API is for but is not tested against mutation.',
 [N+'Buffer.h',N+'Buffer.cpp'],[('byte offset into the first link','BufferLinkList::SkipData/SkipEmptyPrefix')],['bytes seen through the list and through other references'])
p('C24','Buffer chains convert to vectors covering exactly their bytes',
 'For any chain of buffers or links (empty ones included), any starting byte offset inside of it and any vector count limit, the vectors made for writing describe exactly the chain bytes from the offset on, and those made for reading describe exactly the free space, both as a prefix bounded by the limit with no zero-sized gap changing the order. Copying or referencing memory as a chain yields exactly this memory.',
 ['inputs'],'every bounded chain shape, offset and limit',
 'BufferTest has several shapes.',
 [N+'Buffer.cpp'],[('chain walk','BuffersToIOVecsForWrite/ForRead, BuffersCopy, BuffersRef, BuffersPropagateOnRead')],['resulting vectors'])
p('C25','Addresses parse, print, compare and round-trip consistently',
 'For every IPv4 or IPv6 address and port, setting a host from its printed form (with or without a port) gives back the same host, equality is an equivalence distinguishing family, address and port, and a string which is not an address is rejected leaving the host unset. Changing the port changes nothing else.',
 ['inputs'],'every address and port value, every bounded string',
 'HostTest has a list of examples.',
 [N+'Host.h',N+'Host.cpp'],[('text split into address and port parts','Host::Set, HostIPToString')],['Host::Set/ToString/operator=='])
p('C26','URL parsing splits any string into the right parts',
 'For every string of the form [protocol://]host[:port][/target] parsing yields exactly those parts (port zero when absent or not a 16-bit number), and for any string whatsoever it terminates without reading out of bounds and loses no part of host and target.',
 ['inputs'],'every bounded string',
 'URLTest has a list of examples.',
 [N+'URL.cpp'],[('sequential splitting','URLParse')],['URL fields'])
p('C27','Socket helper calls pass exactly the requested values to the system',
 'Every socket helper (keep-alive, no-delay, reuse-address, bind, shutdown, close, state check, bound-address query) asks the operating system for exactly what its caller requested, reports success if and only if the system did, and otherwise returns the error which the system gave.',
 ['inputs','fault_sequences'],'every argument value and every system call outcome',
 'The tests run on a real kernel where the calls succeed; the inverse of a flag is not observed.',
 [N+'Socket_Unix.cpp',N+'Socket.cpp'],[('setsockopt/getsockopt/bind/shutdown wrappers','Socket_Unix.cpp')],['system call arguments and results'])
p('C28','Domain resolution calls back exactly once',
 'Each asynchronous domain resolution request ends with exactly one callback, whether it succeeds, fails, times out or is cancelled, under any schedule of requesters, cancellers and the resolving thread. A cancellation is reported only to a cancelled request and a timeout only after its time limit, both before the resolution; a success carries exactly the found addresses, at least one, without duplicates and in their order. Nothing is lost or leaked.',
 ['schedules','fault_sequences'],'every schedule of a request, a cancel and the resolver, every resolver outcome',
 'DomainToIPTest resolves localhost; cancellation against completion races are sampled.',
 [N+'DomainToIP.cpp'],[('request queue with deadlines and worker threads','DomainToIP context')],['callback invocations'])
p('C29','The SSL stream neither loses, reorders, leaks nor corrupts data',
 'For any interleaving of application input, network input, connect, shutdown and output pops and for any behaviour the TLS library is allowed to have (partial reads and writes, want-read, want-write, errors), bytes given to the stream are handed to the TLS library once encryption was requested and never appear in the network output as plain text, all bytes produced on either side come out exactly once in order, and after an error the stream stays in the error state and reports it.',
 ['histories','fault_sequences'],'every bounded history over a nondeterministic TLS library',
 'SSLStreamTest uses real OpenSSL with few record sizes; errors in the middle of a batch are not reachable there.',
 [N+'SSLStreamOpenSSL.cpp',N+'SSLStream.cpp',N+'SSLBioMem.cpp'],[('state machine around SSL_read/SSL_write/SSL_do_handshake and memory BIO','SSLStreamOpenSSL')],['PopNetOutput/PopAppOutput/GetError'])
p('C30','The memory BIO is a byte queue',
 'For any sequence of writes and reads of arbitrary sizes through the TLS library side and the stream side, the memory BIO delivers exactly the written bytes in order and asks to retry exactly when it is empty; the data appended and taken on the stream side is the same queue.',
 ['histories','inputs'],'every bounded sequence of reads and writes',
 'It is only exercised through OpenSSL.',
 [N+'SSLBioMem.cpp'],[('BufferStream behind BIO callbacks','BIO methods')],['BIO read/write/ctrl results'])
# ---- aio ------------------------------------------------------------------------------
p('C31','IO task wakeups, events and closes are never lost',
 'Once a task is posted into the IO core, each wakeup, kernel event, passed deadline or close request made at any moment (before, during or after an execution) is followed by an execution of the task delivering it; executions of one task never overlap; a close request, however many times made, ends with exactly one final closed execution after which the task is not executed any more and its socket was closed exactly once.',
 ['schedules','fault_sequences'],'every bounded schedule of one task, external wakers/closers, kernel events and the scheduling step',
 'The stress tests sample the schedules on a real kernel.',
 [A+'IOTask.cpp',A+'IOCore.cpp',A+'IOCore_epoll.cpp',A+'IOTask_epoll.cpp'],[('task status word and front queue','IOTask::PostWakeup/PostClose, IOCore::PrivScheduleDo')],['OnEvent calls, socket closes'])
p('C32','IO task operations report exactly what the kernel did',
 'For every outcome of the send, receive, connect and accept system calls the operation reports exactly this outcome: the byte count, the error code, or that it is in progress, in which case it is unlocked only by the matching readiness event or by the close, and no readiness that was not consumed is forgotten.',
 ['fault_sequences','histories'],'every system call outcome in bounded sequences of operations and events',
 'A local kernel rarely produces short writes, EAGAIN at chosen points or accept errors.',
 [A+'IOTask_epoll.cpp',A+'IOTask.cpp',A+'IOTask.h'],[('in/out event pointers and saved events','IOTask::Send/Recv/ConnectStart/Accept/ProcessArgs')],['IOEvent state'])
p('C33','An async TCP socket sends all bytes in order and reports each once',
 'For any interleaving of sends posted from outside and from callbacks and any pattern of partial writes, would-blocks and errors of the kernel, the bytes reaching the kernel are a prefix of the bytes sent in the order of sends with nothing lost or duplicated, the sum of the reported sent sizes equals the bytes taken by the kernel, and received bytes are delivered in order exactly once and only when receiving was requested.',
 ['histories','fault_sequences'],'every bounded history of sends, receives and kernel outcomes',
 'Loopback sockets accept whole writes; short writes at each boundary are not produced.',
 [A+'TCPSocket.cpp',A+'TCPSocketIFace.cpp'],[('front and worker send queues with a byte offset','TCPSocket::PrivSend')],['system call arguments, OnSend/OnRecv'])
p('C34','An async TCP socket goes through its life cycle exactly once',
 'For any interleaving of connect or wrap, shutdown, close and kernel outcomes the subscription gets at most one connect notification and never after an error or a close, each fatal error is reported at most once and before the close, and the close notification comes exactly once and last, after which the object can be opened and connected again.',
 ['histories','fault_sequences'],'every bounded history of user requests and kernel outcomes',
 'The tests follow chosen scenarios.',
 [A+'TCPSocketIFace.cpp',A+'TCPSocketCtl.cpp',A+'TCPSocket.cpp'],[('socket state and control messages','TCPSocketIFace::PrivCtl, TCPSocketCtl')],['subscription callbacks'])
p('C35','An async TCP server hands over each accepted connection exactly once',
 'Each connection accepted from the kernel is handed to the subscription exactly once with its peer address, transient accept errors never stop the server from accepting further, and closing ends with exactly one close notification.',
 ['fault_sequences','histories'],'every bounded sequence of accept outcomes and a close at any point',
 'Accept errors do not happen in the tests.',
 [A+'TCPServer.cpp',A+'IOTask_epoll.cpp'],[('accept event and reschedule','TCPServer::OnEvent')],['OnAccept/OnClose callbacks'])
# ---- sio ------------------------------------------------------------------------------
p('C36','A sync TCP socket keeps byte order and reports errors over any kernel behaviour',
 'For any history of connect, sends, updates and receives and any kernel outcome (partial writes, would-block, in-progress connects, errors), the bytes given to the kernel are a prefix of the bytes sent, in order, with nothing lost or duplicated; a failed connect or transfer closes the socket and returns the error; the descriptor is closed exactly once.',
 ['histories','fault_sequences'],'every bounded history of operations and system call outcomes',
 'Loopback sockets do not produce the outcomes.',
 [O+'TCPSocket.cpp',O+'Socket_Unix.cpp',O+'Socket.cpp'],[('output list and offset, connect state','sio::TCPSocket')],['system call arguments, return values'])
p('C37','A sync TCP server accepts, retries and closes correctly',
 'For any outcome of the underlying system calls, binding and listening succeed if and only if the system succeeded, accepting returns each accepted descriptor exactly once with its peer address, transient failures are not errors, critical ones are reported and close the server, and no descriptor is leaked or closed twice.',
 ['fault_sequences','histories'],'every bounded sequence of calls and outcomes',
 'Errors do not happen in the tests.',
 [O+'TCPServer.cpp',O+'Socket_Unix.cpp'],[('server state','sio::TCPServer')],['system call arguments, return values'])
p('C39','An SSL socket reports the connect first and delivers and sends the app data in order',
 'For every order of events and every split of the bytes: OnConnect is called once and, when the encryption is on, only after the TLS handshake is done; OnRecv is called only after OnConnect and only when a receive was requested, at most once per request, with the decrypted bytes in order, none lost; data is given to the TLS stream only after OnConnect, in order, exactly once, and what the stream generates for the network is sent in order without gaps; what was queued before Encrypt() goes unencrypted and all after it encrypted; OnSend reports exactly the bytes given to the stream; errors of TLS and of the network are reported once and close the socket; everything is sent and received when the kernel lets.',
 ['inputs','schedules','fault_sequences'],'every bounded script of user operations, every split of the incoming bytes, every outcome of the system calls',
 'The order of the end of a handshake and of the first data is random in the tests.',
 [A+'SSLSocket.cpp',A+'TCPSocketIFace.cpp',A+'TCPSocketCtl.cpp'],[('SSL socket','aio::SSLSocket')],['callbacks and their arguments','bytes given to sendmsg'])
# ---- test lib -------------------------------------------------------------------------
p('C38','Messages written are the messages read back',
 'Any sequence of values written into messages is read back identically, whatever the message sizes are relative to the buffer boundaries and however the byte stream is cut on its way; a message is complete exactly when all its bytes are there.',
 ['inputs','histories'],'every bounded sequence of values and every cut position',
 'The messages in the tests have fixed layouts.',
 [T+'Message.cpp',T+'Message.h'],[('size-prefixed messages','WriteMessage/ReadMessage')],['ReadMessage results'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
