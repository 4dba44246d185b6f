PATHS = 'path-sensitive typestate/dataflow analysis (abstract interpretation of every path of the functions reached from the entry point)'

prop('J01', 'Durable checkpoints follow flush, copy, sync, copy, sync',
     'A hard checkpoint first flushes buffered journal data, then writes the checkpoint position to one copy, syncs the file, writes the same position to the second copy and syncs again. Both copies go to the header pair that does not hold the current durable checkpoint, so a crash at any point leaves one valid durable checkpoint. It does nothing only if the position is already durable.',
     'crash_points histories', 'every crash point during a hard checkpoint, for every prior state of the header slots',
     'Tests never cut power between two writes; they only observe the final file.', JN + 'Writable_Journal.cpp',
     [('hard_checkpoint_at', JN + 'Writable_Journal.cpp'), ('Header::checkpoint', JN + 'Header.h')], PATHS,
     'event order proved on every path of the hard-checkpoint entry point for all 4 header-slot states; disk semantics of sync assumed',
     [('hard_index', 'pair holding the durable checkpoint', JN + 'Readonly_Journal.h')], ['pwrite/sync calls on the file'])

prop('J02', 'Soft checkpoints never damage the durable one and never hide data',
     'A soft checkpoint flushes buffered data, then writes one negated position to the header, alternating between the two slots of the pair that does not hold the durable checkpoint. It never writes to the pair that holds the current durable checkpoint, and never overwrites the current soft checkpoint. It does nothing only if the position is already checkpointed.',
     'crash_points histories', 'every sequence of soft and hard checkpoints',
     'Tests check that a reader sees the checkpoint, not which slots are at risk while it is written.', JN + 'Writable_Journal.cpp',
     [('soft_checkpoint_at', JN + 'Writable_Journal.cpp')], PATHS,
     'every path, all 4 header-slot states')

prop('J03', 'Checkpoint header is only accessed under a file lock',
     'Every access to the checkpoint area of the file header made by pulling or checkpointing happens while holding a lock: header writes hold the exclusive header lock, header reads hold a header lock or the writer lock. (The touch operation, which rewrites a constant signature, is exempt.)',
     'schedules', 'every interleaving of processes sharing a file',
     'Races between processes need an interleaving that the tests do not produce.', JN + 'Writable_Journal.cpp ' + JN + 'Readonly_Journal.cpp',
     [('Head_Exclusive_Lock', JN + 'Writable_Journal.cpp'), ('Head_Shared_Lock', JN + 'Readonly_Journal.cpp')], PATHS,
     'every path of pull, lock_pull, soft/hard checkpoint, pull_from, in shared and non-shared mode')

prop('J04', 'Journal file locks are released on every exit, including exceptions',
     'Opening, pulling, checkpointing, locking and unlocking a journal leave the header lock and the writer lock balanced on every normal and exceptional exit. Only a successful lock operation on a shared file keeps the writer lock, and only unlocking releases it.',
     'fault_sequences schedules', 'every I/O error at every file operation',
     'Tests do not inject I/O errors at each file operation.', JN + 'Writable_Journal.cpp ' + JN + 'Readonly_Journal.cpp ' + JN + 'Journal_Construction_Lock.cpp',
     [('Journal_Construction_Lock', JN + 'Journal_Construction_Lock.cpp'), ('lock_pull', JN + 'Writable_Journal.cpp')], PATHS,
     'lock depth tracked on every normal and exceptional path; each file operation may throw')

prop('J06', 'Replaying a journal reproduces exactly the events that were written',
     'For every event the journal can record, whatever abbreviated record form is chosen, decoding the record yields the same event with the same arguments. Writer and reader keep identical decoding context (last table, last record, last field) after every record, so no sequence of events can desynchronise them.',
     'inputs histories', 'every event, every argument value, every history of previous events',
     'Abbreviated records depend on the history; tests replay a handful of sequences.', JN + 'Writable_Journal.cpp ' + JN + 'Readonly_Journal.cpp ' + JN + 'File_Buffer.h ' + SRC + 'TYPE_MACRO.h',
     [('generic_update', JN + 'Writable_Journal.cpp'), ('one_step', JN + 'Readonly_Journal.cpp')], 'token-trace extraction from every writer and reader path and inductive matching of tokens, arguments and context',
     'proved by induction over records on symbolic arguments; bulk payload bytes compared by shape; packed integers bit by bit')

prop('J07', 'The on-disk format does not change',
     'Operation codes, type identifiers, the header layout, the supported format version and the sequence of encoded items of every record are those of format version 5, as is the packing of variable-length numbers. Files written by released versions therefore stay readable, and files written now are readable by them.',
     'inputs programs', 'every file written by another build',
     'Tests write and read with the same build, so a consistent change goes unnoticed.', JN + 'Readonly_Journal.h ' + JN + 'Header.h ' + SRC + 'Type.h ' + SRC + 'TYPE_MACRO.h',
     [('operation_t', JN + 'Readonly_Journal.h'), ('Type_Id', SRC + 'Type.h')], 'constants and record layouts extracted from the type-checked source, compared with a frozen table',
     'complete for enumerators, layout and item kinds')

prop('J08', 'Unknown operation codes are refused during replay',
     'Replaying a journal raises an error on any byte that is not an operation code, and accepts every operation code the journal can write.',
     'inputs', 'all 256 operation bytes',
     'Tests feed valid files plus a few corrupted ones.', JN + 'Readonly_Journal.cpp', [('one_step', JN + 'Readonly_Journal.cpp')], PATHS + ', once per operation byte',
     'all 256 bytes')

prop('J09', 'Sizes read from a journal are bounded before memory is allocated or filled',
     'While replaying, memory is allocated for strings, vectors and blobs only after the size read from the file has been compared with the checkpoint. Values are written into storage lent by the receiver only after the record id was found non-negative and the record range within the capacity of that storage.',
     'inputs', 'every corrupted or malicious journal',
     'A few corrupted files are tested, not every size at every place.', JN + 'Readonly_Journal.cpp ' + JN + 'File_Buffer.cpp',
     [('safe_read_string', JN + 'File_Buffer.cpp'), ('update_vector', JN + 'Readonly_Journal.cpp')], 'taint analysis: decoded sizes to allocation and storage sinks, guards required on the path',
     'every path of the replay step for every operation code')

prop('J10', 'Checkpoint selection trusts only valid header copies',
     'When reading the header, a durable checkpoint is adopted only from a pair whose two copies are equal, a soft checkpoint only if it does not lie beyond a known file size, and neither ever moves backwards. The resulting checkpoint is at least the durable one, no valid newer copy is ignored, and the next checkpoint will not overwrite the copies that were adopted.',
     'crash_points inputs', 'all header contents, as left by any crash',
     'Only a few header states arise in tests; the selection must hold for all.', JN + 'Readonly_Journal.cpp', [('read_checkpoint', JN + 'Readonly_Journal.cpp')],
     PATHS + ' over symbolic header copies', 'all paths of the selection code with symbolic slots and size')

prop('J11', 'Opening a journal validates the file',
     'Unless the caller asks to ignore the header, a non-empty file is opened as a journal only if its header was read completely, has the joedb signature and the supported version, and its checkpoint does not exceed the file size when that size is known. An empty file cannot be opened for reading.',
     'inputs configurations', 'every file content and every recovery mode',
     'Tests cover one file per failure kind.', JN + 'Readonly_Journal.cpp', [('Readonly_Journal constructor', JN + 'Readonly_Journal.cpp')], PATHS,
     'guards required in the path condition of every normal return of the opening constructor')

prop('J12', 'Uncommitted data is never silently adopted or overwritten on open',
     'A file with data beyond its checkpoint is refused for writing unless the caller explicitly asks to overwrite. A writable journal is never created on a read-only file, opening an existing file does not rewrite its header, and creating a new one writes a complete header.',
     'histories configurations', 'every file state, recovery mode and open mode',
     'Tests cover only some combinations of recovery mode and file state.', JN + 'Writable_Journal.cpp', [('Writable_Journal constructor', JN + 'Writable_Journal.cpp')], PATHS,
     'every path of the constructor for each recovery mode and file mode')

prop('J13', 'File size is sampled under the opening lock',
     'When a journal is opened, the file size used to validate the header is read after the last lock has been acquired, so that another process that was holding the lock cannot extend or create the file in between.',
     'schedules', 'every interleaving with other processes opening or writing the same file',
     'It takes another process to write between two system calls.', JN + 'Journal_Construction_Lock.cpp', [('Journal_Construction_Lock', JN + 'Journal_Construction_Lock.cpp')], PATHS,
     'event order on every path, for read-only, shared and exclusive files')

prop('J14', 'A failed checkpoint leaves the journal ready to retry',
     'If an I/O error interrupts a soft or hard checkpoint, the journal still reports its previous checkpoint positions and still regards the same header copies as current. A retry therefore performs the checkpoint again, and does not overwrite the last valid durable copies.',
     'fault_sequences', 'an error at every file operation of a checkpoint',
     'Tests do not inject I/O errors.', JN + 'Writable_Journal.cpp', [('hard_checkpoint_at', JN + 'Writable_Journal.cpp'), ('soft_checkpoint_at', JN + 'Writable_Journal.cpp')], PATHS,
     'state compared at every exceptional exit')

prop('J15', 'Strings are stored as their exact length followed by their bytes',
     'A string is written to a journal as its length followed by exactly that many bytes, and read back into a buffer of exactly the announced length. The bounded variant never reads a length that reaches its limit.',
     'inputs', 'every string and every stored length', 'Tests use short strings.', JN + 'File_Buffer.cpp', [('write_string', JN + 'File_Buffer.cpp'), ('safe_read_string', JN + 'File_Buffer.cpp')], PATHS,
     'every path of the three string primitives')

prop('F01', 'Piecewise reads and writes deliver every byte exactly once',
     'A file may return fewer bytes than asked. Copying, comparing, hashing, string-blob reading, buffered reading, asynchronous reading and stream reading all continue at the position right after the bytes received, keep those bytes, stop when nothing more is read, and never report a complete result (copied, equal, blob, n bytes) unless all the requested bytes were obtained. No caller ignores how many bytes it received. Likewise, when the system accepts only part of a write, writing goes on with exactly the remaining bytes, at the offset after those accepted.',
     'inputs fault_sequences', 'every file length, every request size and every sequence of short reads or read errors',
     'Local files never return short reads in tests.', JN + 'Abstract_File.cpp',
     [('Abstract_File::copy_to', JN + 'Abstract_File.cpp'), ('Async_Reader::read', JN + 'Async_Reader.cpp'), ('File_Buffer::read_data', JN + 'File_Buffer.h')],
     'inductive loop analysis with a relational (linear inequality) domain over every loop that reads a file or calls the pwrite of the system',
     'an arbitrary iteration and every exit state of each loop; non-wrapping integer arithmetic assumed')


prop('F02', 'Failures of system and library calls are never dropped',
     'Whenever a call to the operating system or to a library (Posix files, stream buffers, CURL, SSH/SFTP, Brotli) reports a failure, the joedb function that made the call leaves by an exception or returns a value that cannot be mistaken for success, and so do the functions that call it, up to one that throws. Only functions that release a resource (destructors, unlocking) may ignore a failure.',
     'fault_sequences', 'every failing call at every call site, in every combination with the others',
     'Disks do not fill up and connections do not drop during tests.', JN + 'Posix_File.cpp',
     [('Posix_File::pwrite', JN + 'Posix_File.cpp'), ('Posix_File::sync', JN + 'Posix_File.cpp')],
     'abstract interpretation of every path with each fallible call failing or succeeding; error-returning wrappers found by fixpoint',
     'every path of every function that makes a fallible call; the table of failure values is part of the trusted base')

prop('F03', 'Open modes create, require, lock and truncate as documented',
     'Opening a file creates it, requires it, refuses it or opens it without write permission exactly as its mode says; no mode truncates existing data; the exclusive modes hold the tail lock before the file is used (blocking only in the shared case), and a failed lock is an error. Locks cover exactly the requested byte range, shared or exclusive as requested.',
     'configurations schedules', 'every open mode and every outcome of each open and lock call',
     'Needs concurrent processes and exotic file states for every mode.', JN + 'Posix_File.cpp ' + JN + 'Portable_File.cpp',
     [('Posix_File constructor', JN + 'Posix_File.cpp'), ('Portable_File constructor', JN + 'Portable_File.cpp')],
     'abstract interpretation of the constructors for each mode, compared with the documented mode table',
     'all modes and all outcomes of open and lock calls; Linux (Posix) and portable implementations, the Windows one is not compiled here')

prop('F05', 'Buffered reads and writes stay in bounds and at the right file position',
     'Whatever the sequence of sizes, the file buffer never reads or writes outside its array nor outside the memory given by the caller, every byte written or read goes to or comes from exactly its logical position in the file, pending bytes are written before the ones that follow them, and the logical position moves by exactly the number of bytes transferred.',
     'inputs histories', 'every buffer state, every size, every value of the compact encoding and every length of file read',
     'Off-by-one errors at the edge of a 4 KiB buffer need one exact sequence of sizes.', JN + 'File_Buffer.h ' + JN + 'Buffer.h ' + JN + 'File_Buffer.cpp',
     [('File_Buffer::write_data', JN + 'File_Buffer.h'), ('File_Buffer::read_data', JN + 'File_Buffer.h'), ('Buffer::compact_write', JN + 'Buffer.h')],
     'abstract interpretation with a relational (linear inequality) domain, induction variables and inductive bounds for loops',
     'every method from an arbitrary state satisfying the invariant of the buffer; non-wrapping integer arithmetic assumed')

CN = SRC + 'concurrency/'

prop('F04', 'Files in memory and compressed files return exactly what was written',
     'Reading from a file in memory (Memory_File, Readonly_Memory_File) copies, from the offset asked for, as many bytes as were asked for and exist, no more, to the memory of the caller and returns how many; writing stores all bytes at the offset asked for and makes the file grow exactly as needed, never shrink. An encoded file (Encoded_File, Readonly_Encoded_File, hence Brotli files) never loses, reorders or misplaces bytes: bytes waiting in its write buffer stay inside the buffer, are joined only with bytes that follow them, are recorded completely and at their offset before newer bytes are recorded, before anything is read, before a hard checkpoint by sync() and on destruction, and are kept if recording them fails. A read copies exactly the bytes that each recorded buffer has in common with what was asked for, each to its place, decoded from that buffer (the cache of decoded bytes is never taken for another buffer, even after decoding failed), and returns the end of what was read; the size is the end of the last byte, pending bytes included. Decompression returns normally only if it succeeded with the expected size.',
     'inputs histories fault_sequences', 'every offset and size, every state of the write buffer and of the cache, every list of recorded buffers, every failure',
     'Tests write a few small blocks; losing bytes needs a particular sequence of sizes around one megabyte, overlapping writes, or a failure.', SRC + 'journal/Memory_File.cpp ' + SRC + 'journal/Readonly_Memory_File.h ' + SRC + 'journal/Encoded_File.cpp ' + SRC + 'journal/Readonly_Encoded_File.cpp ' + SRC + 'journal/Brotli_Decoder.cpp',
     [('Encoded_File::pwrite', SRC + 'journal/Encoded_File.cpp'), ('Encoded_File::flush_write_buffer', SRC + 'journal/Encoded_File.cpp'), ('Readonly_Encoded_File::pread', SRC + 'journal/Readonly_Encoded_File.cpp'), ('Memory_File::pwrite', SRC + 'journal/Memory_File.cpp')], PATHS + ' with linear arithmetic on offsets and sizes, from every state of the write buffer, and one iteration over the recorded buffers with arbitrary contents',
     'every path; any number of recorded buffers by one arbitrary iteration; the Brotli library and memcpy are trusted')

prop('P02', 'Packing and merging keep every record and move references with them',
     'Packing a file replays all of it up to its checkpoint, refuses a file with blobs before copying any data, and inserts every used record of every table, at the same position and exactly once, unused ones not at all, then stores in it every field, of every type, the value of the same record and field, then checkpoints. Merging a database into another one with the same schema inserts every used record of every table exactly once, its position increased by the number of records the table had before merging, with the value of every field; references are increased by the number of records that the table referred to had before merging, in every record and every field, except null ones, which are kept. Loops over records always advance.',
     'inputs histories', 'every schema, every pattern of used and deleted records, every size of the databases', 
     'Tests pack and merge a few small tables; losing a record or a reference needs a particular pattern of deleted records or references between tables.', SRC + 'ui/dump.cpp ' + SRC + 'ui/merge.cpp',
     [('dump_data', SRC + 'ui/dump.cpp'), ('pack', SRC + 'ui/dump.cpp'), ('merge', SRC + 'ui/merge.cpp')], PATHS + ', with one arbitrary iteration of every loop summarised (records skipped, inserted, fields copied) and the summaries chained with linear arithmetic on record numbers',
     'any number of tables, fields and records by one arbitrary iteration of each loop; reading the source database is uninterpreted')

prop('C01', 'Client transactions: lock, pull, change, checkpoint, push; released on any exit',
     'A transaction acquires the connection lock, pulls, lets the user write, checkpoints locally and pushes, in this order. The connection lock and the local tail lock are released however the transaction ends, including by an exception. A transaction that failed is neither checkpointed nor pushed, and the client refuses to be used afterwards. A push covers exactly what lies between the last synchronised checkpoint and the local one.',
     'fault_sequences histories', 'every sequence of client operations, with an exception at any call',
     'Tests throw from the user code only, not from each file or network operation.', CN + 'Writable_Client.h ' + CN + 'Client.h ' + CN + 'Client.cpp',
     [('Client_Lock', CN + 'Writable_Client.h'), ('Writable_Client::transaction', CN + 'Writable_Client.h'), ('Client::push', CN + 'Client.cpp')], PATHS,
     'every path of the client and its lock object, library clients and generated clients; a release that fails counts as attempted')

prop('C02', 'The server accepts a push only if it extends its journal without conflict',
     'The server writes pushed data only if the client holds the lock (or obtained it on the spot), the data starts exactly at the current checkpoint, and the file is writable; otherwise it answers with the right error code, writes nothing, and still consumes all the data of the request. A success answer means that all the data was written and checkpointed. Nothing that other sessions or the lock timeout do while data is being received can make two writers coexist or corrupt the result.',
     'schedules histories', 'every state of the server, every interleaving of the other sessions at each suspension point',
     'The timeout must expire, or another client act, exactly between two network reads of a push.', CN + 'Server.cpp ' + CN + 'Server.h',
     [('Server::Session::push', CN + 'Server.cpp')],
     'abstract interpretation of the coroutine from every state satisfying the inductive invariant, with rely-guarantee interference at each co_await',
     'all paths, all invariant states; single-threaded executor')

prop('C03', 'The server grants its lock to one session at a time and never loses it',
     'At most one session holds the server lock, and the file lock of the server is held exactly while a session does (when the file is shared). A lock request is granted or queued, never dropped; when the owner unlocks, disconnects or times out, the next session of the queue gets the lock. A session that ends is removed from every queue, and a session waiting for data is woken when data arrives. A server of a shared journal does not lock it when it starts.',
     'schedules histories', 'every sequence of requests, disconnections and timeouts of any number of clients',
     'Needs several clients, timeouts and disconnections at specific moments.', CN + 'Server.cpp ' + CN + 'Server.h',
     [('Server::Session::lock', CN + 'Server.cpp'), ('Server::Session::unlock', CN + 'Server.cpp'), ('Server::Session::cleanup', CN + 'Server.cpp')],
     'inductive invariant checked by abstract interpretation of every handler from every invariant state, with rely-guarantee interference at each co_await',
     'all paths, all invariant states; single-threaded executor')

prop('C04', 'Client and server agree on every message of the network protocol',
     'For every request, the code, the position, the size and the meaning of every field the client sends are those the server reads; the client reads exactly as many bytes as the server answers, and interprets every field and reply code as the server meant it. A reply to a pull announces the end of the data that follows, contains no data when none was asked for, and is computed once the lock is taken when it was asked for; the data received is stored at the end of the journal, then checkpointed; a push sends exactly the range it announces and is answered by its outcome.',
     'programs inputs', 'every request, every field and every reply of the protocol',
     'Tests use the same small values for all fields and rarely provoke error replies.', CN + 'Server.cpp ' + CN + 'Server_Connection.cpp ' + CN + 'Server_Client.cpp',
     [('Server::Session', CN + 'Server.cpp'), ('Server_Connection', CN + 'Server_Connection.cpp'), ('Server_Client', CN + 'Server_Client.cpp')],
     'both ends interpreted symbolically; wire layouts extracted from every path and compared',
     'every request code and every path of its sender and its handler')

prop('C05', 'The keep-alive thread never interferes with its client',
     'Everything the background ping shares with the client (the channel, the message buffer, the stop flag) is only used under the lock of the channel, and a request and its reply are exchanged under the same lock, so that a ping never comes in between. The thread is started when the client is ready, checks the stop request before waiting or pinging, never lets an exception escape, and is stopped and joined before anything it uses is destroyed, without deadlock.',
     'schedules', 'every interleaving of the keep-alive thread with every operation of the client, including construction and destruction',
     'The tests run with keep-alive disabled, or never ping at the critical moment.', CN + 'Keep_Alive_Thread.h ' + CN + 'Server_Client.cpp ' + CN + 'Server_Connection.cpp ' + SRC + 'rpc/Client.h',
     [('Keep_Alive_Thread', CN + 'Keep_Alive_Thread.h'), ('Server_Client', CN + 'Server_Client.cpp')],
     'lockset typestate over every method of every client class, shared state computed from the call graph of the thread',
     'every path of every method; the lock is identified by its type (one channel per client object)')

prop('C06', 'Network peers cannot cause out-of-bounds accesses',
     'Whatever bytes the peer sends, clients, server sessions and RPC sessions never read or write outside the message buffer, the memory given by the caller, a string or the table of procedures; sizes announced by the peer are compared with what was requested before they are used. Reading and writing a channel transfers exactly the requested bytes, in order, whatever the sizes of the partial transfers; each end consumes and produces exactly the number of bytes announced by the message.',
     'inputs fault_sequences', 'every message a peer may send and every sequence of partial transfers',
     'Tests only connect well-behaved peers, over local sockets that rarely split messages.', CN + 'Server_Connection.cpp ' + CN + 'Server_Client.cpp ' + CN + 'Server.cpp ' + CN + 'Channel.cpp ' + SRC + 'rpc/Client.h ' + SRC + 'rpc/Server.h',
     [('Server_Connection::pread', CN + 'Server_Connection.cpp'), ('Server::Session::push', CN + 'Server.cpp'), ('rpc::Client::call', SRC + 'rpc/Client.h')],
     'abstract interpretation with a relational (linear inequality) domain, arbitrary received data, inductive loop bounds',
     'every method that touches the network; the message given to rpc::Client::call is assumed to start with its prolog; integers do not wrap')

prop('C07', 'A robust connection reconnects transparently and safely',
     'Every operation of a Robust_Connection returns the result of one successful operation of the connection, with the arguments of the caller unchanged. After any error other than Disconnection it waits, makes a new channel and a new connection, repeats the handshake of the journal if there was one (with its content check), and only then tries again; Disconnection reaches the caller at once. A channel outlives the connection that uses it. Releasing the lock never throws because of the network.',
     'histories configurations', 'every sequence of failures of the connector, of the channel and of the server',
     'Needs network failures at every point of every operation, including during reconnection.', CN + 'Robust_Connection.cpp ' + CN + 'Robust_Connection.h',
     [('Robust_Connection::reconnect', CN + 'Robust_Connection.cpp'), ('Robust_Connection::try_until_success', CN + 'Robust_Connection.h')],
     'typestate of channel, connection and handshake over all paths, each call failing in every way; modular: operations use the contract of reconnection',
     'every path of every operation, loops by typestate fixpoint')

prop('C08', 'Server_File reads and writes each byte in the right place',
     'A byte of the header is read and written in the local copy, a byte before tail_offset is read on the server at the same offset and can never be written, a byte from tail_offset on is read and written in the local tail at offset - tail_offset; a write never spills from the header into the body. Pulling is refused while the tail is not empty, transfers no data, and makes tail_offset, the header and the journal agree with the checkpoint of the server. Pushing empties the tail only when the server has all of it. Only the journal made on the file is connected to it.',
     'inputs histories', 'every offset and size, every tail, every checkpoint of the server',
     'Boundaries between header, server and tail depend on sizes and on what other clients pushed.', CN + 'Server_File.cpp ' + CN + 'Server_File.h',
     [('Server_File::pread', CN + 'Server_File.cpp'), ('Server_File::pwrite', CN + 'Server_File.cpp'), ('Server_File::push', CN + 'Server_File.cpp'), ('Server_File::pull', CN + 'Server_File.cpp')],
     PATHS + '; bounds of every access entailed by linear arithmetic over the path conditions',
     'every path; offsets are not negative and offset + size does not wrap')

prop('C09', 'A remote procedure call executes the right procedure once',
     'For each call, the server executes exactly one procedure, the one whose index was sent, on a file made of the prolog of that procedure followed by exactly the bytes received; it answers success with the size of the file and all the bytes that the procedure appended, in order, or failure with an error message, and the client never takes a failure for a success. The client sends everything after the prolog, appends the reply and updates the checkpoint of its file. Nobody is served before a handshake in which client and server compared a hash of the name and prolog of every procedure.',
     'inputs programs', 'every message size, procedure, reply size and failure; every client, including incompatible ones',
     'Tests call a few procedures with small messages that fit in one buffer.', SRC + 'rpc/Server.h ' + SRC + 'rpc/Client.h ' + SRC + 'rpc/get_hash.cpp',
     [('rpc::Server::Session::call', SRC + 'rpc/Server.h'), ('rpc::Client::call', SRC + 'rpc/Client.h'), ('rpc::get_hash', SRC + 'rpc/get_hash.cpp')],
     'abstract interpretation of both ends with arbitrary received data, inductive loop relations (linear arithmetic) and event order on every path',
     'every path; a procedure is assumed to only append to its file')
prop('C10', 'A client and a server with different contents are never connected',
     'When a client connects with a fast or full content check, the bytes between the end of the header and the smaller of the two checkpoints are compared (all of them with a full check; at least both ends with a fast check), never more than that; any difference makes the connection fail with Content_Mismatch, which is not retried, and equal contents are never refused. The remote check hashes that interval at both ends with the algorithm requested, and the client obeys the answer. equal_to() returns true only if every byte of the interval was read from both files and compared equal, whatever the sizes of the reads, and false only if it found a difference. Every client performs exactly one handshake, with the check of its caller, before any other use of the connection.',
     'inputs programs', 'every pair of files and checkpoints, every content check, every pattern of short reads',
     'Tests compare small files that fit in one buffer and always read in full.', CN + 'File_Connection.cpp ' + CN + 'Server_Connection.cpp ' + SRC + 'journal/Abstract_File.cpp ' + CN + 'Journal_Client_Data.h',
     [('Pullonly_Journal_Connection::handshake', CN + 'File_Connection.cpp'), ('Server_Connection::handshake', CN + 'Server_Connection.cpp'), ('Server::Session::check_hash', CN + 'Server.cpp'), ('Abstract_File::equal_to', SRC + 'journal/Abstract_File.cpp')],
     'abstract interpretation of handshakes with every outcome of each comparison, linear arithmetic on intervals, inductive loop relations over short reads',
     'every path; SHA-256 is trusted to have no collision')
prop('C11', 'Operations on a local journal do what is asked; pull-only connections say so',
     'A connection to a local journal first pulls that journal (with a lock if and only if one is requested), then transfers its data to the journal of the client if and only if requested, and returns the checkpoint that results. A push is accepted if and only if it starts at the checkpoint of the server, and transfers the journal of the client up to the requested position; a refused push changes nothing. A client pushes from the checkpoint of its connection, never beyond the checkpoint of its journal, and remembers the result. The journal is unlocked by unlock() and when the connection is destroyed. A connection to a read-only journal refuses to lock or push before doing anything. A connection says that it is pull-only if and only if it can never push, and a server announces it to its clients, which obey.',
     'inputs programs', 'every combination of actions, every checkpoint, every failure of a journal',
     'Tests use a few successful scenarios; no test asks a connection whether it is pull-only.', CN + 'File_Connection.cpp ' + CN + 'File_Connection.h ' + CN + 'Client.h ' + CN + 'Server.cpp ' + CN + 'Server_Client.cpp',
     [('Journal_Connection::push', CN + 'File_Connection.cpp'), ('Pullonly_Journal_Connection::pull', CN + 'File_Connection.cpp'), ('Client::push', CN + 'Client.h'), ('Server::Session::handshake', CN + 'Server.cpp')],
     'abstract interpretation of every method for each combination of actions, with event order, checkpoint versions and linear arithmetic; class-hierarchy check of is_pullonly against push',
     'every path')

GEN = SRC + 'compiler/generator/'
prop('G01', 'Generated write functions keep data, indexes and journal together',
     'In the code generated for a schema: setting a field (or a vector of values) of a record that is in use stores the value in the column of that field and in no other, makes every index whose last-declared column is that field contain exactly one entry for the record, made of the current values of its columns, or fails with an exception if a unique index already has the key; inserting (with an id given, chosen, or a vector) marks exactly those ids as used, after the columns have room for them and with no index entry, and deleting frees them and removes their index entries. An invalid or already used id, or a vector not entirely in use, is refused before anything changes. Each operation that succeeds writes exactly one event to the journal, with the ids of the table and field in the schema and the values given, after the data was updated; one that fails writes none. The functions that replay the journal have the same effects, write nothing, ignore tables and fields of another type, and accept every event that could be written.',
     'inputs programs', 'every record id, value and vector, every failure of a unique index or of the journal, for every column type and kind of index',
     'Tests call some of these functions with a few ids of one schema; most index and failure combinations are never run.', GEN + 'Writable_Database_h.cpp ' + GEN + 'Database_h.cpp ' + GEN + 'Database_Writable_h.cpp',
     [('generate_Writable_Database_h', GEN + 'Writable_Database_h.cpp'), ('generate_Database_h', GEN + 'Database_h.cpp'), ('generate_Database_Writable_h', GEN + 'Database_Writable_h.cpp')],
     'the compiler is built from the source and run on a sample schema that has every column type and kind of index; ' + PATHS + ' on the generated functions, with a typestate of every index entry and the schema as oracle',
     'every path of every generated function of the sample schema; vectors of 0 to 2 records')
prop('G05', 'Generated read functions return what is stored',
     'In the code generated for a schema: the getter of a field returns the value in the column of that field for the record given, after checking that the record is in use; looking up a unique index returns the record of the entry whose key is made of the values given, in the order of the columns of the index, or null if there is none; looking up another index returns the range of the entries with that key; next and previous of an index return the record of the next or previous entry, or null if there is none; an iterator is never used or moved outside of its index.',
     'inputs programs', 'every record id and key, for every column type and kind of index, including records that are not in an index',
     'Tests read a few records; reading past the end of an index has no visible effect in most runs.', GEN + 'Database_h.cpp',
     [('generate_Database_h', GEN + 'Database_h.cpp')],
     'the compiler is built from the source and run on a sample schema; ' + PATHS + ' on the generated functions, iterators tracked symbolically',
     'every path of every generated function of the sample schema')
prop('G02', 'Generated classes check and upgrade the schema of the files they open',
     'Opening a file with a class generated for a schema ends normally only if the schema events of the file are, byte for byte, the beginning of the schema given to the compiler (all of it for a read-only class); otherwise it fails with an exception, and it never fails because of the schema in the other cases. A writable class then writes to the journal exactly the schema events that the file lacks, plays exactly these into the database, and ends this one transaction with a valid-data mark and a checkpoint; it writes nothing if no event is missing. Rows of single-row tables are created, and custom functions are called, during such an upgrade only, for the table or the name of the event. A single-row table has exactly its row after opening for writing and after a pull. Schema events played from a journal are recorded at once in the schema of the database, and a pull by a client that brings a schema change ends with an exception.',
     'inputs histories programs', 'every schema of the file and every later pull, for every generated class and constructor',
     'Tests open a few older versions of some files and never a corrupted schema, a longer schema, or a schema change at every point of the life of a client.', GEN + 'Database_Writable_h.cpp ' + GEN + 'Writable_Database_cpp.cpp ' + GEN + 'Client_h.cpp ' + GEN + 'Readonly_Client_h.cpp',
     [('Database_Writable::check_schema', GEN + 'Database_Writable_h.cpp'), ('Writable_Database::auto_upgrade', GEN + 'Writable_Database_cpp.cpp'), ('Client::read_journal', GEN + 'Client_h.cpp')],
     'the compiler is built from the source and run on two sample schemas; ' + PATHS + ' on the generated classes, with linear arithmetic on the size of the schema of the file',
     'every path of every constructor, pull function and schema event of the classes generated for the sample schemas; that playing events until a position records exactly these events is decided by J06 and J08')
IN = SRC + 'interpreted/'
prop('D01', 'Operations of the interpreted database are checked, then done exactly',
     'In the interpreted database (joedb::Database): creating, renaming and dropping tables and fields, inserting, updating and deleting records and vectors of records each check the names, ids and records they are given before changing anything, fail with an exception without any change if a name is not an identifier or already taken, if an id does not exist, or if one of the records is (for an insertion) already used or (for an update or deletion) not used, and otherwise change exactly what was asked: the table or field named, the column cell of the field and record given, the records given. Ids of new tables and fields are never reused and never overflow; a new column has the size of its table, and before a record becomes used, the table and its columns are large enough for it, and the table never grows beyond the last record inserted.',
     'inputs histories', 'every sequence of operations with any id, name, record and vector of values',
     'Tests use a few valid sequences and one wrong id for each operation.', IN + 'Database.cpp ' + IN + 'Database_Schema.cpp ' + IN + 'Table.cpp ' + IN + 'Table.h ' + IN + 'Field.h',
     [('insert_vector', IN + 'Table.cpp'), ('add_field', IN + 'Table.cpp'), ('rename_table', IN + 'Database_Schema.cpp')], PATHS + ' with maps, columns and the free list as abstract state, and loop invariants on their sizes',
     'every path of every operation, every type of field; vectors of 0 to 2 records')
prop('D02', 'A new record has default values even if its id was used before',
     'When a record or a vector of records is deleted, from the interpreted database or from the database generated for a schema, every field of every record deleted is given the default value of its type (0, false, empty string, null reference, null blob) before the record becomes free; inserting records stores nothing else. The default-constructed blob is null, and the null reference is -1.',
     'inputs histories', 'every history in which a record id is used again, for every type of field',
     'Tests hardly ever read a field of a record that was deleted and inserted again without being updated.', IN + 'Table.cpp ' + IN + 'Field.h ' + SRC + 'compiler/generator/Database_h.cpp',
     [('delete_record', IN + 'Table.cpp'), ('generate_Database_h', SRC + 'compiler/generator/Database_h.cpp')], PATHS + ', for every type of field; generated code of a sample schema',
     'every path, every type of field; vectors of 0 to 2 records')
prop('D08', 'The free list always knows exactly which records are used',
     'Freedom_Keeper keeps the set of used record ids, among ids 0 to size - 1. An id is used if and only if it is in that range and was last used rather than freed; a vector of ids is used only if it does not wrap around and all its ids are used, and free only if none of them is used. Using and freeing records change exactly the records given, whichever representation (dense, or linked lists) is in use: the dense representation refuses, without change, what it cannot express, and is then converted to lists with the same used records and the same size before the change is made to the lists. Going forward or backward through the used or free list from its end gives exactly the used or free records and then the end again. Adding records, asking for a free one and resizing never shrink, and return the record added or a record that is free.',
     'inputs histories', 'every sequence of uses and frees of records and vectors, every id and size',
     'Tests run a few sequences; damaged links or a lost record show only after a particular sequence.', SRC + 'Freedom_Keeper.h',
     [('use', SRC + 'Freedom_Keeper.h'), ('lose_compactness', SRC + 'Freedom_Keeper.h'), ('is_used_vector', SRC + 'Freedom_Keeper.h')], 'shape analysis of the linked lists on abstract nodes, ' + PATHS + ' with linear arithmetic on sizes',
     'every path; all shapes of the lists around the place that changes; conversions and vectors of 0 to 3 records')
prop('D03', 'Relays pass every event on exactly once, unchanged',
     'A Multiplexer passes every event of the Writable interface (schema changes, comments, checkpoints, insertions, deletions and updates of records and vectors, of every type) exactly once, with the same arguments and in order, to each of its listeners starting from its start index, and gives blob data to exactly the listeners that want them. A Selective_Writable does so for the schema events, data events or informative events its mode contains, always for the start and end of writing and for soft and hard checkpoints, and for nothing else. A listener that handles single records only gets one event for each record of a vector, with the right value.',
     'inputs histories programs', 'every event with every argument, every number of listeners, every mode',
     'Tests use relays with a few events; a forgotten or altered event of one type is not noticed.', SRC + 'Multiplexer.cpp ' + SRC + 'Selective_Writable.cpp ' + SRC + 'Writable.cpp ' + SRC + 'Writable.h',
     [('MULTIPLEX', SRC + 'Multiplexer.cpp'), ('Selective_Writable::hard_checkpoint', SRC + 'Selective_Writable.cpp'), ('update_vector_', SRC + 'Writable.cpp')], PATHS + ' of every virtual function of the interface as resolved in each relay',
     'every event, every mode, 0 to 3 listeners, vectors of 0 to 3 records')

prop('U01', 'The interpreter reads back the text dump as the same events',
     'Every event that the text dump prints is one complete line, which exactly one command processor of the interpreter accepts and turns into the same event with the same arguments: the same table, record and field, type, name, size, and the same values in the same order, for every type of field. Comment lines and blank lines of the dump make no event. For every type but string, read_<type> gives back the value that write_<type> printed, without loss of range or precision. (Finite numbers, names without spaces; the escapes of strings are not covered.)',
     'inputs histories programs', 'every event and argument, every type of field, vectors of every enumerated size',
     'Tests compare a few dumps with expected text; they do not compare what is read back with what was dumped, for every event, type and value.', SRC + 'ui/Interpreter_Dump_Writable.cpp ' + SRC + 'ui/Data_Manipulation_Command_Processor.cpp ' + SRC + 'ui/Readable_Writable_Command_Processor.cpp ' + SRC + 'ui/Writable_Command_Processor.cpp ' + SRC + 'ui/type_io.cpp',
     [('Interpreter_Writable::write_update', SRC + 'ui/Interpreter_Dump_Writable.cpp'), ('process_command', SRC + 'ui/Data_Manipulation_Command_Processor.cpp'), ('PRIMITIVE_IO', SRC + 'ui/type_io.h')], PATHS + ': the words that the dump prints are computed, and the interpreter is interpreted abstractly on exactly these words',
     'vectors of 0 to 2 records (0 to 5 in the thorough tier); the default precision of floating-point numbers is a known finding')
