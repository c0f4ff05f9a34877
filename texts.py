# The properties: what must hold, over what, and where it is anchored.
TEXTS = {}; NA = {}
def P(pid, title, statement, over, quant, why, files, mech, **kw): TEXTS[pid] = dict(title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files, mech=mech, **kw)
P('C01', 'The ring deque behaves as a double-ended queue', 'After any sequence of operations the ring deque holds exactly the elements a plain double-ended queue of the same capacity would hold, in the same order at every index. Copying, moving, assigning (also to itself), clearing and changing the capacity preserve contents, and every element is constructed and destroyed exactly once.', 'histories inputs', 'all operation sequences, capacities, rotations, element values and indices', 'TestRingDeque samples a few push/pop sequences with ints; wrap-around states, growth while wrapped, self assignment and element lifetime are histories it does not reach.', ['include/Pothos/Util/RingDeque.hpp'], [('modular front index and element count', 'include/Pothos/Util/RingDeque.hpp')], observe=['size', 'operator[]', 'front', 'back'])
P('C02', 'The ordered queue releases elements in cyclic index order', 'Elements pushed with ordering indices become available exactly in cyclic index order, each exactly once, whatever order they were pushed in. The queue is empty exactly when the next element in order has not been pushed.', 'histories inputs', 'all push orders of distinct outstanding indices interleaved with pops, for every rotation', 'The buffer manager tests return buffers in a handful of orders; there are factorially many.', ['include/Pothos/Util/OrderedQueue.hpp'], [('acknowledge index and holding area', 'include/Pothos/Util/OrderedQueue.hpp')])
P('C03', 'Spin locks exclude each other and never get stuck', 'At most one holder of a spin lock, and at most one writer or any number of readers of a read/write spin lock, is inside at any time under every schedule. A failed try_lock leaves the lock as it was, every waiting thread gets in once the holders leave, and writes made under the lock are visible to the next holder.', 'schedules', 'all interleavings of the acquiring and releasing threads, and all weakly ordered outcomes the release/acquire annotations permit', 'Mutual exclusion is a statement over schedules; the tests run two threads once.', ['include/Pothos/Util/SpinLock.hpp', 'include/Pothos/Util/SpinLockRW.hpp'], [('atomic flag / counter protocol', 'include/Pothos/Util/SpinLockRW.hpp')])
P('C04', 'Actor access is exclusive and no wake-up is lost', 'The worker and external callers never have access to a block at the same time, writes made under that access are never lost, and a change flagged while the worker is busy or about to sleep makes it run again. External callers get in, and no schedule leaves a thread waiting for ever.', 'schedules', 'all interleavings of worker threads, external calls and change notifications', 'Lost wake-ups and exclusion failures need a notification inside a window of a few instructions.', ['lib/Framework/ActorInterface.hpp'], [('change flags, external-call counter and condition variable', 'lib/Framework/ActorInterface.hpp')])
P('C05', 'The buffer accumulator presents an unaltered byte stream', 'The front of an accumulator always shows the next bytes of the concatenation of everything pushed minus everything popped, and the byte count agrees, whether chunks are adjacent, separate or were copied together by require(). After require(n) the front has at least n bytes if that many are available, and buffers are released once their bytes are consumed.', 'histories inputs', 'all sequences of push, pop and require over chunks at any offset and length of separate, adjacent or chained buffers', 'No unit test drives the accumulator directly; the merge, move-back and copy paths depend on offsets, lengths and history.', ['lib/Framework/BufferAccumulator.cpp', 'include/Pothos/Framework/BufferAccumulator.hpp', 'lib/Framework/BufferPool.cpp'], [('merging of adjacent chunks, pool copy, move-back', 'lib/Framework/BufferAccumulator.cpp')])
P('C06', 'A managed buffer returns to its manager exactly once, after its last holder', 'A buffer handed out by a manager goes back to it (or to the delivery callback) exactly once, when the last of all handles and chunks referring to it is gone, and not before, whichever threads hold and drop them and however handles are copied, moved or assigned, also to themselves. If the manager has gone the memory is still valid while held and is released afterwards, and everything holders wrote is visible when the buffer comes back.', 'histories schedules', 'all sequences of handle operations, all interleavings of threads dropping handles and of the manager going away', 'A premature or missing return needs a particular order of drops, or a race of two drops.', ['lib/Framework/ManagedBuffer.cpp', 'include/Pothos/Framework/ManagedBuffer.hpp', 'include/Pothos/Framework/BufferManager.hpp', 'lib/Framework/BufferManager.cpp'], [('reference count and return to the weakly held manager', 'lib/Framework/ManagedBuffer.cpp')])
P('C07', 'A buffer manager never hands out memory that is still in use', 'The front buffer offered by the generic and the circular buffer manager never overlaps bytes that a downstream holder can still see, whatever the order in which buffers come back. No buffer is lost or duplicated, the front is within the configured size, and after everything was returned every buffer is available again.', 'histories', 'all interleavings of produce, hold and return over the buffers of a slab, partial pops and both manager kinds', 'Corruption shows only for particular return orders and fill levels.', ['lib/Framework/Builtin/GenericBufferManager.cpp', 'lib/Framework/Builtin/CircularBufferManager.cpp', 'include/Pothos/Util/OrderedQueue.hpp', 'lib/Framework/BufferAccumulator.cpp'], [('slab order restored by the ordered queue', 'lib/Framework/Builtin/GenericBufferManager.cpp'), ('double mapping and space counter', 'lib/Framework/Builtin/CircularBufferManager.cpp')])
P('C08', 'A shared buffer is exactly its requested range inside its parent', 'A sub-buffer is created exactly when its range lies inside its parent (for a circular parent: inside the double mapping), otherwise creation fails and nothing is held. It has the requested address and length, shares the memory of its parent and keeps it alive, and library-made buffers are aligned, fully usable and released with the last reference.', 'inputs', 'all 64-bit addresses and lengths, nested to two levels', 'Range and overflow errors concern 64-bit address arithmetic that tests sample at a few values.', ['lib/Framework/SharedBuffer.cpp', 'lib/Framework/SharedBufferUnix.cpp', 'include/Pothos/Framework/SharedBuffer.hpp'], [('range check of the sub-buffer constructor', 'lib/Framework/SharedBuffer.cpp')])
P('C09', 'The buffer pool never hands out memory in use', 'A pool request returns a buffer of at least the requested size which nobody else refers to, whatever was requested, released or cleared before. Released buffers of sufficient size are reused, and all memory is released with the pool and its holders.', 'histories', 'all sequences of get, release and clear with sizes around the default size', 'The tests do not call the pool directly.', ['lib/Framework/BufferPool.cpp', 'include/Pothos/Framework/BufferPool.hpp'], [('uniqueness test before reuse', 'lib/Framework/BufferPool.cpp')])
P('C36', 'A failed or displaced memory mapping is reported and leaves nothing behind', 'When any system call fails while a circular buffer or a file mapping is set up, or the kernel places a mapping elsewhere, the result is either a correct mapping or a reported failure. No mapping or descriptor is left behind, no foreign mapping is unmapped, and a circular buffer that is returned really has its second half mapped right after its first.', 'faults', 'a failure or displacement at any system call, and repeated failures', 'System call failures cannot be provoked by the tests.', ['lib/Framework/SharedBufferUnix.cpp', 'lib/Framework/MemoryMappedBufferContainer.cpp'], [('reserve, unmap and remap sequence', 'lib/Framework/SharedBufferUnix.cpp'), ('open, size and map sequence', 'lib/Framework/MemoryMappedBufferContainer.cpp')])
P('C12', 'Labels stay attached to their elements', 'A label posted on an element of an output stream becomes visible downstream at exactly that element, in position order, once, however production, consumption and buffer boundaries cut the stream and also when it was posted ahead of its element. Exactly the labels on consumed elements are propagated, label positions are scaled for element sizes in both directions, and the label counters agree.', 'histories inputs', 'all interleavings of produce, post label and consume, all label positions, element sizes that are and are not powers of two', 'Label positions depend on how the stream happens to be cut into buffers; tests send a label or two at fixed positions.', ['include/Pothos/Framework/InputPortImpl.hpp', 'include/Pothos/Framework/OutputPortImpl.hpp', 'lib/Framework/InputPort.cpp', 'lib/Framework/OutputPort.cpp', 'lib/Framework/WorkerActor.cpp', 'include/Pothos/Framework/Label.hpp'], [('label index rebasing on consume and scaling on transfer', 'lib/Framework/WorkerActor.cpp'), ('input port label queues', 'include/Pothos/Framework/InputPortImpl.hpp')])
P('C13', 'Every consumer sees exactly the produced stream', 'Each subscriber of an output sees every produced byte exactly once and in order, independent of the other subscribers and of who runs when. A block that modifies its input in place never changes what another block or holder sees, elements cut across buffers are put together intact, reserves decide when work() is called, and the producer gets its buffers back once all have consumed.', 'histories schedules', 'all turn orders of producer, in-place block and one or two consumers, all production and consumption amounts', 'Aliasing damage appears only for particular turn orders and amounts with fan-out.', ['lib/Framework/WorkerActor.cpp', 'lib/Framework/OutputPort.cpp', 'lib/Framework/InputPort.cpp', 'include/Pothos/Framework/OutputPortImpl.hpp', 'include/Pothos/Framework/InputPortImpl.hpp'], [('postWork buffer hand-over and fan-out', 'lib/Framework/WorkerActor.cpp'), ('read-before-write buffer takeover', 'lib/Framework/WorkerActor.cpp')])
P('C14', 'Output ports deliver exactly what was produced or posted', 'Produced elements, posted buffers and requested buffers in any mix reach the consumer in order and complete, and nothing else does. work() always has output space of at least the reserve inside the buffer memory, a requested buffer has the requested length and type, the totals count what was sent, and no buffer is lost or handed out twice.', 'histories', 'all sequences of produce, getBuffer, postBuffer, popElements and setReserve interleaved with consumption', 'Double use of the front buffer needs a mix of posting, requesting and producing in one or several work() calls.', ['lib/Framework/OutputPort.cpp', 'include/Pothos/Framework/OutputPortImpl.hpp', 'lib/Framework/WorkerActor.cpp'], [('front buffer pop on produce, getBuffer and popElements', 'lib/Framework/OutputPort.cpp')])
P('C15', 'Messages, signals and slots arrive once, in order, with their contents', 'Every message posted to an output arrives exactly once at each subscriber in posting order with its contents, and every emitted signal calls each connected slot once, in order, with its arguments. A producer that gets ahead is held back and continues as soon as messages are taken.', 'histories inputs', 'all interleavings of posting, peeking, taking and emission with arbitrary contents', 'Loss, duplication and starvation depend on the interleaving of posts and pops.', ['lib/Framework/OutputPort.cpp', 'include/Pothos/Framework/OutputPortImpl.hpp', 'include/Pothos/Framework/InputPortImpl.hpp', 'lib/Framework/WorkerActor.cpp', 'lib/Framework/Block.cpp'], [('token buffers limit messages in flight', 'lib/Framework/OutputPort.cpp'), ('slot call dispatch', 'lib/Framework/WorkerActor.cpp')])
P('C32', 'work() is told the truth about its ports', 'Whenever work() runs, the element counts, pointers and minima over the indexed and over all ports reported by the work information equal what the ports themselves show.', 'inputs', 'all combinations of available input and output elements, element sizes, reserves, indexed and named ports', 'The minima have six variants over indexed and named ports, each wrong only for particular combinations.', ['lib/Framework/WorkerActor.cpp', 'include/Pothos/Framework/WorkInfo.hpp'], [('preWork accumulation of the minima', 'lib/Framework/WorkerActor.cpp')])
P('C16', 'Archived numbers and containers are restored exactly', 'Writing numbers, strings, complex numbers, vectors, maps, sets and pairs to an archive and reading them back gives equal values, bit for bit, and consumes exactly the bytes written. This holds for every value of every arithmetic type, every container size and any sequence of values in one archive, whatever the variable read into held before.', 'inputs', 'all values and bit patterns of the arithmetic types, container sizes and mixtures', 'Variable-length integers and sign handling go wrong only for particular magnitudes; the tests write a few small numbers.', ['include/Pothos/Archive/Numbers.hpp', 'include/Pothos/Archive/BinaryObject.hpp', 'include/Pothos/Archive/Vector.hpp', 'include/Pothos/Archive/Map.hpp', 'include/Pothos/Archive/Set.hpp', 'include/Pothos/Archive/String.hpp', 'lib/Archive/StreamArchiver.cpp'], [('variable-length integer encoding', 'include/Pothos/Archive/Numbers.hpp')])
P('C17', 'Objects and framework types survive serialization', 'An object of any serializable type, null included and nested in vectors and maps, has the same type and value after serialize and deserialize. Data types, buffer chunks, labels, packets, port descriptions and thread pool settings are restored with all their fields.', 'inputs', 'all values of the fields, object kinds and nestings', 'Fields that are dropped, truncated or swapped go unnoticed unless a test looks at that field with a distinctive value.', ['lib/Object/Serialize.cpp', 'lib/Object/Builtin/Serialize.cpp', 'lib/Archive/ArchiveEntry.cpp', 'lib/Framework/DType.cpp', 'lib/Framework/BufferChunk.cpp', 'lib/Framework/Label.cpp', 'lib/Framework/Packet.cpp', 'lib/Framework/ThreadPool.cpp', 'lib/Framework/Connectable.cpp'], [('type hash followed by the value', 'lib/Archive/ArchiveEntry.cpp')])
P('C18', 'Damaged archives are refused without harm', 'Reading from an archive that was cut off at any byte reports an error. Arbitrary bytes lead to a value or to an error but never to an access outside the given bytes, an endless read or a leak, and a refused object leaves the receiver null.', 'inputs faults', 'all truncation points and all byte sequences up to the stated length', 'The tests read only well-formed archives; damaged ones come over the network.', ['lib/Archive/StreamArchiver.cpp', 'lib/Archive/ArchiveEntry.cpp', 'include/Pothos/Archive/Numbers.hpp', 'include/Pothos/Archive/ArchiveEntry.hpp', 'lib/Object/Serialize.cpp'], [('checked byte reads', 'lib/Archive/StreamArchiver.cpp')])
P('C20', 'Conversions keep the value or are refused', 'Converting an object to another numeric type gives the same mathematical value (truncated for floating point to integer, rounded for integer to floating point) or throws when the value does not fit, for every value of every pair of types, element by element for vectors, and both parts for complex numbers; an imaginary part is never dropped. canConvert agrees with convert.', 'inputs', 'all values of all numeric type pairs, including NaN, infinities and the limits', 'Out-of-range detection fails only next to the limits of 64-bit types; the tests convert a few small numbers.', ['lib/Object/Convert.cpp', 'lib/Object/Builtin/ConvertCommonImpl.hpp', 'lib/Object/Builtin/ConvertIntegers.cpp', 'lib/Object/Builtin/ConvertFloats.cpp', 'lib/Object/Builtin/ConvertIntermediate.cpp', 'lib/Object/Builtin/ConvertString.cpp', 'include/Pothos/Object/ObjectImpl.hpp'], [('range-checked number conversion', 'lib/Object/Builtin/ConvertCommonImpl.hpp')])
P('C19', 'Object handles share one value until the last one goes', 'All copies of an object refer to one value, which is destroyed exactly once, when the last copy goes, whatever is copied, moved or assigned, also to itself or from inside the value itself, and whichever threads do so. extract() and ref() succeed exactly for the stored type, ref() only while a single handle exists, and what former holders did is visible to the one that becomes unique.', 'histories schedules inputs', 'all sequences of handle operations and all interleavings of threads reading, copying and dropping', 'Lifetime errors need self-assignment, nesting or a particular interleaving.', ['lib/Object/Object.cpp', 'include/Pothos/Object/Object.hpp', 'include/Pothos/Object/ObjectImpl.hpp'], [('reference counter in assignment, destruction and unique()', 'lib/Object/Object.cpp')])
P('C21', 'Object comparison is a consistent order', 'Comparing number and string objects gives the sign of their mathematical or lexical order for every pair of values and types (floating point mixed with integers after rounding to double, NaN excluded), is antisymmetric and agrees with equals, < and >. Equal values of one type have equal hashes, and what has no order is reported as such while equals and the operators still work.', 'inputs', 'all pairs of values of all integer types, floats, strings up to the bound, and all kinds of object pairwise', 'Rounding and sign errors concern few of the 2^128 pairs.', ['lib/Object/Compare.cpp', 'lib/Object/Builtin/Compare.cpp', 'lib/Object/Hash.cpp', 'lib/Object/Builtin/Hash.cpp', 'lib/Object/Object.cpp'], [('comparison through registered functions or double', 'lib/Object/Compare.cpp')])
P('C23', 'Plugin paths are well formed or refused', 'A plugin path is accepted exactly when it is "/" or a sequence of slash-led non-empty names of letters, digits, dashes and underscores. Its nodes are the names between the slashes, and joining or concatenating paths gives the path with the nodes of both.', 'inputs', 'all strings up to the bound', 'The tests try a few good and bad strings.', ['lib/Plugin/Path.cpp'], [('path validation', 'lib/Plugin/Path.cpp')])
P('C24', 'The plugin registry shows exactly what is registered', 'After any sequence of add and remove, the registry answers get, empty, exists and list according to exactly the plugins registered, refuses duplicates and missing paths, lists names in the order first added, tells each handler above a plugin once about its addition and removal, and concurrent lookups and additions never interfere. Removing a conversion, comparison, hash or string plugin takes its effect back completely.', 'histories schedules', 'all sequences of operations on nested paths, all interleavings of two threads', 'Interference and left-overs need particular histories or schedules.', ['lib/Plugin/Registry.cpp', 'lib/Object/Convert.cpp', 'lib/Object/Compare.cpp', 'lib/Object/Hash.cpp', 'lib/Object/ToString.cpp'], [('registry tree and event handlers', 'lib/Plugin/Registry.cpp')])
P('C10', 'A buffer chunk keeps exactly the memory it shows', 'A chunk holds every buffer it reaches into, and no other, until its last copy is gone or cleared. Appending gives the concatenation of the bytes of both chunks whether they are empty, inside one buffer or reach across several, and leaves the other chunks as they were; element counts, lengths and alias addresses agree with type and memory.', 'histories inputs', 'all extents over chained buffers, all copies, moves and clears, all addresses of double-mapped memory', 'Release too early or too late needs chunks across buffer boundaries.', ['lib/Framework/BufferChunk.cpp', 'include/Pothos/Framework/BufferChunk.hpp'], [('references to the following buffers', 'lib/Framework/BufferChunk.cpp')])
P('C27', 'Buffer conversion converts every element and nothing else', 'Converting a buffer chunk gives exactly the elements of the input, each converted as C++ converts the types, in as many output elements as the dimensions of both types imply, both parts for complex numbers. The result has the requested type and lies in its memory, nothing outside an output buffer is written, and outputs that are too small or conversions without meaning are refused.', 'inputs', 'all values of the element types, dimensions and counts', 'The tests convert one-dimensional buffers of a few types.', ['lib/Framework/BufferConvert.cpp'], [('element counts and the converter table', 'lib/Framework/BufferConvert.cpp')], note='The vectorised conversion kernels (lib/SIMD, libsimdpp is not installed) are replaced by one scalar cast per element.')
P('C11', 'A data type is what its name says', 'Every name, alias, type_info and markup denotes the type with that element size, kind and dimension; size is element size times dimension, different types are unequal, the markup of a type denotes the same type, and unknown names and malformed dimensions are refused.', 'inputs', 'all types, dimensions up to 2^32, all dimension texts up to the bound', 'The tests look at a few types.', ['lib/Framework/DType.cpp', 'include/Pothos/Framework/DType.hpp'], [('element type table and markup parser', 'lib/Framework/DType.cpp')])
P('C22', 'A callable makes exactly the call it was given', 'After any sequence of bind and unbind a callable takes exactly the arguments that are not bound, in order, and the wrapped function or constructor receives each bound and given value in its own place. Arguments of another type arrive converted with their value or the call is refused without being made; wrong counts, null callables and exceptions of the function are reported, reference arguments and results refer to the original, and copies of a callable do not affect each other.', 'histories inputs', 'all sequences of bind and unbind, argument counts, kinds of function and argument values', 'Argument positions depend on which arguments are bound and in which order; the tests bind one or two.', ['lib/Callable/Callable.cpp', 'include/Pothos/Callable/Callable.hpp', 'include/Pothos/Callable/CallableImpl.hpp', 'lib/Callable/Exception.cpp'], [('bound argument table', 'lib/Callable/Callable.cpp')])
P('C30', 'A block has exactly the ports that were set up', 'After any sequence of setting up ports by index and by name, each port exists once under its name, indexed access gives the port of that index, and name lists, port information and the set of ports agree. A name is an index exactly when it is the decimal text of one; repeated names and unknown ports are refused, and a port has the type, domain and alias it was given.', 'histories inputs', 'all sequences of port set-up, all short names, all long numbers', 'Index and name collide only for unusual names and orders.', ['lib/Framework/Block.cpp', 'lib/Framework/WorkerActorPortAllocation.cpp', 'lib/Framework/WorkerActor.hpp', 'lib/Framework/PortsAndFlows.hpp', 'lib/Framework/Connectable.cpp'], [('port allocation and name to index conversion', 'lib/Framework/WorkerActorPortAllocation.cpp')])
P('C31', 'A thread pool runs every task and stops them safely', 'Every task registered with a thread pool keeps being run while it is registered, by at most as many threads as configured and never by two at once. Once unregisterTask() or the destructor of the pool returns, the task is not running and never runs again, other tasks go on, and a task can be registered again; what one thread wrote in a task the next one sees.', 'schedules', 'all interleavings of pool threads, of threads that register and unregister, and of tasks that become ready', 'A task still running after its removal needs a particular interleaving; the tests check only that a pool can be used.', ['lib/Framework/ThreadEnvironment.cpp', 'lib/Framework/ThreadEnvironment.hpp', 'lib/Framework/ThreadPool.cpp'], [('task table, acquisition and configuration signature', 'lib/Framework/ThreadEnvironment.cpp')])
P('C33', 'The design that runs is the design that was committed', 'After any sequence of connect, disconnect, disconnectAll and commit, messages go exactly along the connections of the last commit, and each block was activated when it joined the design and deactivated when it left it, once each. Connections that exist already, do not exist, or name unknown ports are refused without effect, and the ports of a topology are those of its connections.', 'histories', 'all sequences of topology operations over a set of blocks and connections', 'The tests build a topology, run it and take it down; what is left over after changes shows only later.', ['lib/Framework/Topology.cpp', 'lib/Framework/TopologyCommit.cpp', 'lib/Framework/TopologyImpl.hpp', 'lib/Framework/WorkerActor.cpp'], [('difference between the active flows and the new ones', 'lib/Framework/TopologyCommit.cpp'), ('flow and port lists', 'lib/Framework/Topology.cpp')])
P('C28', 'A hierarchy connects exactly what its paths connect', 'An output is connected to an input after commit() exactly when a path through topologies at any depth leads from one to the other, also through topologies that pass a flow through and after connections inside or outside change. A stream through a hierarchy arrives complete, in order and unaltered.', 'histories inputs', 'all subsets and changes of connections in hierarchies of up to three topologies, all stream amounts and contents', 'The tests flatten one hierarchy; paths through several levels and pass-throughs combine in many ways.', ['lib/Framework/TopologySquashFlows.cpp', 'lib/Framework/TopologyCommit.cpp', 'lib/Framework/Topology.cpp', 'lib/Framework/TopologyImpl.hpp'], [('flow squashing and pass-through completion', 'lib/Framework/TopologyCommit.cpp')])
P('C34', 'A call through a proxy reaches the right member of a managed class', 'A call by name on a proxy runs exactly the registered constructor, method, static method or field access whose arguments fit, once, on the instance behind the proxy whether held by value, pointer or shared pointer, and returns its result. Members of a base class, opaque and wildcard handlers get only the calls nothing else fits; a call that fits nothing and an exception in a member are reported. Classes, their names and their conversions are found exactly while registered, and containers of proxies keep every element through conversions.', 'histories inputs', 'all sets of overloads and handlers, argument kinds and values, ways to hold the instance, registration histories, container contents', 'The member is chosen among many candidates by run-time types, so the combinations are too many to test, and stale registry entries only show after particular histories.', ['lib/Managed/Class.cpp', 'lib/Managed/Registry.cpp', 'lib/Managed/Builtin/ManagedHandle.cpp', 'lib/Managed/Builtin/ManagedProxy.cpp', 'lib/Proxy/Proxy.cpp', 'lib/Proxy/Builtin/ConvertContainers.cpp'], [('choice among overloads and handlers', 'lib/Managed/Builtin/ManagedHandle.cpp'), ('type to class map', 'lib/Managed/Registry.cpp')])
P('C35', 'A call on a block reaches the right method, alone', 'Calling a method of a block by name makes exactly the registered call whose arguments fit, once, with the given values and result, and an error in it or no fitting call is reported. Probes answer with a signal carrying the value of the call, and a call from outside never overlaps with work() or with another call and is not lost.', 'histories schedules inputs', 'all sets of overloads, argument kinds and values, all interleavings of a caller and the worker', 'Overlap of a call with work() needs a particular schedule, and overloads are chosen among several candidates by argument.', ['lib/Framework/Block.cpp', 'lib/Framework/WorkerActor.cpp', 'lib/Framework/ActorInterface.hpp', 'include/Pothos/Framework/BlockImpl.hpp'], [('call table lookup and locked access', 'lib/Framework/Block.cpp')])
P('C25', 'A remote call does what the local call does', 'A call through a remote proxy runs once on the server with exactly the given values and objects, returns its result, and reports exceptions and refused calls to its caller alone; conversion and comparison give the local answers. A server object lives exactly while a proxy refers to it, threads sharing a connection each get their own reply, and a broken or damaged connection is reported to every caller and leaves no thread waiting.', 'histories inputs schedules faults', 'all argument values, all points at which the connection can break or be damaged, all interleavings of two threads on one connection or on two', 'The tests make a few calls over one healthy connection; lost replies and objects removed too early need particular arguments, failures and schedules.', ['lib/Remote/RemoteProxy.cpp', 'lib/Remote/RemoteProxy.hpp', 'lib/Remote/RemoteProxyHandle.cpp', 'lib/Remote/RemoteProxyDatagram.cpp', 'lib/Remote/ServerHandler.cpp'], [('sharing of the reply stream between threads', 'lib/Remote/RemoteProxy.cpp'), ('table of server objects', 'lib/Remote/ServerHandler.cpp'), ('datagram framing', 'lib/Remote/RemoteProxyDatagram.cpp')])
